module verifharness

go 1.16

require github.com/inklabs/rangedb v0.0.0

replace github.com/inklabs/rangedb => /repo

require (
	github.com/EventStore/EventStore-Client-Go v1.0.2
	github.com/aws/aws-sdk-go v1.38.22
	github.com/dustin/go-humanize v1.0.0
	github.com/fatih/structtag v1.2.0
	github.com/gofrs/uuid v4.0.0+incompatible
	github.com/golang/protobuf v1.5.0
	github.com/google/uuid v1.1.2
	github.com/gorilla/handlers v1.4.2
	github.com/gorilla/mux v1.7.4
	github.com/gorilla/websocket v1.4.2
	github.com/lib/pq v1.8.0
	github.com/opencontainers/image-spec v1.0.2 // indirect
	github.com/opencontainers/runc v1.0.3 // indirect
	github.com/stretchr/testify v1.7.0
	github.com/syndtr/goleveldb v1.0.0
	github.com/vmihailenco/msgpack/v4 v4.3.11
	golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9
	google.golang.org/appengine v1.6.6 // indirect
	google.golang.org/grpc v1.35.0
	google.golang.org/protobuf v1.27.1
	gopkg.in/yaml.v2 v2.3.0 // indirect
	gopkg.in/yaml.v3 v3.0.0-20210107192922-496545a6307b // indirect
)
