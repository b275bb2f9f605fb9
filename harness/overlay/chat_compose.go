package chat

import (
	"context"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/cqrs"
)

// Compose puts the application together as New does, but with aggregates that
// are constructed for every command: those New shares between commands keep the
// state of other rooms and users (see known-findings.txt).
func Compose(store rangedb.Store) (cqrs.CommandDispatcher, error) {
	app := cqrs.New(
		store,
		cqrs.WithAggregateFactories(
			func() cqrs.Aggregate { return NewUser() },
			func() cqrs.Aggregate { return NewRoom() },
		),
	)
	warned := NewWarnedUsersProjection()
	processor := newRestrictedWordProcessor(app, warned)
	ctx := context.Background()
	if err := store.AllEventsSubscription(ctx, 10, warned).StartFrom(0); err != nil {
		return nil, err
	}
	if err := store.AllEventsSubscription(ctx, 10, processor).Start(); err != nil {
		return nil, err
	}
	return app, nil
}
