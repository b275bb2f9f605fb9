package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
)

// declField declares a field of an event: see EventCode.tla.
type declField struct {
	N    string `json:"n"`
	Ty   string `json:"ty"`
	Mark string `json:"mark"`
	To   string `json:"to"`
}

type declStruct struct {
	Name   string      `json:"name"`
	Fields []declField `json:"fields"`
}

// declPkg is one generated package.
type declPkg struct {
	name    string
	ep      *Ep
	structs []declStruct
	styles  []int
	cmds    []string
	ops     []scriptOp
	rnd     *rand.Rand
	r       string // ok, refused, nocompile
	cutAt   int    // the aggregate knows the events before this one
}

var declNames = []string{"ThingAdded", "X", "UserWasWarned2", "Élan", "A1", "HTTPCalled", "Event", "E2E"}
var declFields = map[string][]string{
	"F1": {"Name", "Ünit", "Type", "Err", "Length", "URL", "E"}, "F2": {"Email", "B", "Range", "Zip", "Strconv"}, "F3": {"Birth_Year", "C2", "Crypto", "String"},
	"F4": {"X", "ÖrtlichkeitÄÖ", "Encryptor", "Nil"}, "F5": {"Street", "Func", "YY"},
}

// rename gives structs and fields names people use.
func (d *declPkg) rename() {
	perm := d.rnd.Perm(len(declNames))
	for i := range d.structs {
		names := map[string]string{}
		for from, to := range declFields {
			names[from] = to[0]
			if d.rnd.Intn(3) > 0 {
				names[from] = to[d.rnd.Intn(len(to))]
			}
		}
		fit := func(n string) string {
			if to, ok := names[strings.TrimRight(n, "TU")]; ok {
				suf := map[string]string{"": "", "T": "Encrypted", "U": "Too"}[n[2:]]
				return to + suf
			}
			return n
		}
		s := &d.structs[i]
		s.Name = declNames[perm[i]]
		for j := range s.Fields {
			s.Fields[j].N, s.Fields[j].To = fit(s.Fields[j].N), fit(s.Fields[j].To)
		}
	}
	d.cmds = []string{"AddThing", "É1", "Do"}[:1+d.rnd.Intn(3)]
}

// source renders the declarations: the same ones can be written in many ways.
func (d *declPkg) source(structs []declStruct, more bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n", d.name)
	if more && d.rnd.Intn(3) == 0 {
		b.WriteString("\nimport \"time\"\n\nvar _ time.Time\n\ntype other interface{ personal() }\n\nconst personal = \"personal-data\"\n")
	}
	group := d.rnd.Intn(4) == 0
	if group {
		b.WriteString("\ntype (\n")
	}
	for _, s := range structs {
		if !group {
			b.WriteString("\n// " + s.Name + " is an event.\ntype ")
		}
		b.WriteString(s.Name + " struct {\n")
		for j := 0; j < len(s.Fields); j++ {
			f := s.Fields[j]
			names := f.N
			for j+1 < len(s.Fields) && f.Mark != "number" && s.Fields[j+1].Mark == f.Mark && s.Fields[j+1].Ty == f.Ty && f.Mark != "subject" && d.rnd.Intn(2) == 0 {
				j++
				names += ", " + s.Fields[j].N
			}
			tag := map[string]string{"personal": `encrypt:"personal-data"`, "subject": `encrypt:"subject-id"`, "number": `encrypt:"personal-data" serialized:"` + f.To + `"`}[f.Mark]
			one := !strings.Contains(names, ",")
			if one && d.rnd.Intn(3) == 0 {
				tag = strings.TrimSpace(`json:"` + strings.ToLower(f.N) + `" ` + tag)
			}
			if d.rnd.Intn(5) == 0 {
				tag = strings.TrimSpace(tag + ` msgpack:",omitempty"`)
			}
			switch {
			case tag == "":
			case d.rnd.Intn(5) == 0:
				tag = fmt.Sprintf("%q", tag)
			default:
				tag = "`" + tag + "`"
			}
			fmt.Fprintf(&b, "\t%s %s %s", names, f.Ty, tag)
			if d.rnd.Intn(6) == 0 {
				b.WriteString(" // personal")
			}
			b.WriteString("\n")
			if d.rnd.Intn(9) == 0 {
				b.WriteString("\n\t// more\n")
			}
		}
		if d.rnd.Intn(5) == 0 {
			b.WriteString("\tList []struct{ N int }\n\tEmptied\n")
		}
		b.WriteString("}\n")
	}
	if group {
		b.WriteString(")\n")
	}
	return b.String()
}

func lowerFirst(s string) string {
	r := []rune(s)
	return strings.ToLower(string(r[0])) + string(r[1:])
}

// write renders the package and runs the generators on it.
func (d *declPkg) write(dir, bin string) {
	must(os.MkdirAll(dir, 0755))
	put := func(name, text string) { must(os.WriteFile(filepath.Join(dir, name), []byte(text), 0644)) }
	run := func(gen string, args ...string) bool {
		c := exec.Command(filepath.Join(bin, gen), args...)
		c.Dir = dir
		c.Env = append(os.Environ(), "GOPACKAGE="+d.name, "GOFILE=events.go")
		return c.Run() == nil
	}
	cut := len(d.structs)
	if d.rnd.Intn(3) == 0 {
		cut = 1 + d.rnd.Intn(len(d.structs))
	}
	d.cutAt = cut
	files := []string{"events.go"}
	put("events.go", d.source(d.structs[:cut], true))
	ok := run("eventgenerator", "-id", "ID", "-aggregateType", "thing")
	if cut < len(d.structs) {
		files = append(files, "more_events.go")
		put("more_events.go", d.source(d.structs[cut:], false))
		ok = ok && run("eventgenerator", "-package", d.name, "-id", "ID", "-aggregateType", "thing", "-inFile", "more_events.go", "-outFile", "zz_gen.go")
	}
	var c strings.Builder
	fmt.Fprintf(&c, "package %s\n", d.name)
	for _, n := range d.cmds {
		fmt.Fprintf(&c, "\ntype %s struct {\n\tID string `json:\"id\"`\n\tN  int\n}\n", n)
	}
	put("commands.go", c.String())
	ok = ok && run("commandgenerator", "-package", d.name, "-id", "ID", "-aggregateType", "thing", "-inFile", "commands.go")
	ok = ok && run("eventbinder", "-package", d.name, "-files", strings.Join(files, ","))
	// the aggregate knows the events of the first file only
	ok = ok && run("aggregategenerator", "-package", d.name, "-name", "thing", "-events", "events.go", "-commands", "commands.go")
	if !ok {
		d.r = "refused"
		must(os.RemoveAll(dir))
		return
	}
	var a strings.Builder
	fmt.Fprintf(&a, "package %s\n\nimport \"github.com/inklabs/rangedb\"\n\ntype Emptied struct{}\n\ntype thing struct {\n\tpendingEvents []rangedb.Event\n\tdone []string\n}\n", d.name)
	for _, s := range d.structs[:cut] {
		fmt.Fprintf(&a, "\nfunc (a *thing) %s(e %s) { a.done = append(a.done, \"%s:\"+e.ID) }\n", methodName(s.Name), s.Name, s.Name)
	}
	for _, n := range d.cmds {
		fmt.Fprintf(&a, "\nfunc (a *thing) %s(c %s) {\n\ta.done = append(a.done, \"%s:\"+c.ID)\n\ta.raise(&%s{ID: c.ID})\n}\n", methodName(n), n, n, d.structs[0].Name)
	}
	fmt.Fprintf(&a, "\nfunc New() (interface{}, func() []string) {\n\ta := &thing{}\n\treturn a, func() []string { d := a.done; a.done = nil; return d }\n}\n")
	list := func(name string, of []string) {
		fmt.Fprintf(&a, "\nvar %s = []interface{}{", name)
		for _, n := range of {
			fmt.Fprintf(&a, "%s{}, ", n)
		}
		a.WriteString("}\n")
	}
	var names, known []string
	for i, s := range d.structs {
		names = append(names, s.Name)
		if i < cut {
			known = append(known, s.Name)
		}
	}
	list("Events", names)
	list("Known", known)
	list("Commands", d.cmds)
	put("thing.go", a.String())
}

// methodName is how the generated aggregate calls its methods.
func methodName(n string) string {
	return lowerFirst(n)
}

const driverMain = `package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/cqrs"
	"github.com/inklabs/rangedb/pkg/crypto"
)

var _ = context.Background

type pkg struct {
	events, known, commands []interface{}
	bind                    func(rangedb.EventBinder)
	agg                     func() (interface{}, func() []string)
	cur                     rangedb.Event
	gone                    map[string]bool
	n, fail                 int
	how                     string
}

func (p *pkg) use(s string) error {
	p.n++
	if p.n == p.fail {
		if p.how == "del" {
			return crypto.ErrKeyWasDeleted
		}
		return errors.New("no")
	}
	if p.gone[s] {
		return crypto.ErrKeyWasDeleted
	}
	return nil
}

func (p *pkg) Encrypt(s, data string) (string, error) {
	if err := p.use(s); err != nil {
		return "garbage", err
	}
	return "{" + s + ":" + data + "}", nil
}

func (p *pkg) Decrypt(s, data string) (string, error) {
	if err := p.use(s); err != nil {
		return "99", err
	}
	if !strings.HasPrefix(data, "{"+s+":") || !strings.HasSuffix(data, "}") {
		return "98", errors.New("not a cipher text")
	}
	return data[len(s)+2 : len(data)-1], nil
}

type kv struct {
	N string ` + "`json:\"n\"`" + `
	V string ` + "`json:\"v\"`" + `
	K string ` + "`json:\"k\"`" + `
}

type req struct {
	P, Op, Fail string
	I, Pos      int
	Ptr         bool
	Vals        []kv
}

type res map[string]interface{}

func set(v reflect.Value, vals []kv) {
	for _, x := range vals {
		f := v.FieldByName(x.N)
		if f.Kind() == reflect.Int {
			n, _ := strconv.Atoi(x.V)
			f.SetInt(int64(n))
		} else {
			f.SetString(x.V)
		}
	}
}

func (p *pkg) show() []kv {
	v := reflect.ValueOf(p.cur).Elem()
	out := []kv{}
	for i := 0; i < v.NumField(); i++ {
		if k := v.Field(i).Kind(); k == reflect.Int || k == reflect.String {
			out = append(out, kv{N: v.Type().Field(i).Name, V: fmt.Sprint(v.Field(i).Interface())})
		}
	}
	return out
}

type binder struct{ names []string }

func (b *binder) Bind(events ...rangedb.Event) {
	for _, e := range events {
		if t := reflect.TypeOf(e); t.Kind() != reflect.Ptr || t.Elem().Name() != e.EventType() {
			b.names = append(b.names, "bound wrongly")
		}
		b.names = append(b.names, e.EventType())
	}
}

type stranger struct{}

func (stranger) AggregateID() string   { return "s" }
func (stranger) AggregateType() string { return "thing" }
func (stranger) EventType() string     { return "Stranger" }

func (p *pkg) do(q req) (r res) {
	r = res{"r": "ok"}
	defer func() {
		if x := recover(); x != nil {
			r = res{"r": "panic", "msg": fmt.Sprint(x)}
		}
	}()
	p.n, p.fail, p.how = 0, q.Pos, q.Fail
	code := func(err error) {
		switch {
		case err == crypto.ErrKeyWasDeleted:
			r["r"] = "del"
		case err != nil:
			r["r"] = "oth"
		}
		r["vals"] = p.show()
	}
	switch q.Op {
	case "new":
		v := reflect.New(reflect.TypeOf(p.events[q.I-1]))
		set(v.Elem(), q.Vals)
		p.cur = v.Interface().(rangedb.Event)
	case "enc":
		var err error
		if e, ok := p.cur.(interface{ Encrypt(crypto.Encryptor) error }); ok {
			err = e.Encrypt(p)
		}
		code(err)
	case "dec":
		var err error
		if e, ok := p.cur.(interface{ Decrypt(crypto.Encryptor) error }); ok {
			err = e.Decrypt(p)
		}
		code(err)
	case "forget":
		p.gone[q.Vals[0].V] = true
	case "id":
		r["aid"], r["ag"], r["et"] = p.cur.AggregateID(), p.cur.AggregateType(), p.cur.EventType()
	case "bind":
		b := &binder{names: []string{}}
		p.bind(b)
		r["out"] = b.names
	case "cmds":
		a, _ := p.agg()
		types := a.(cqrs.Aggregate).CommandTypes()
		ids := []string{}
		for _, c := range p.commands {
			v := reflect.New(reflect.TypeOf(c))
			set(v.Elem(), []kv{{N: "ID", V: "x"}})
			cmd := v.Elem().Interface().(cqrs.Command)
			if cmd.AggregateID() != "x" || cmd.CommandType() != v.Elem().Type().Name() {
				ids = append(ids, cmd.CommandType()+cmd.AggregateID())
			}
			ids = append(ids, cmd.AggregateType())
		}
		r["types"], r["ids"] = types, ids
	case "load":
		a, done := p.agg()
		ch := make(chan rangedb.ResultRecord, len(q.Vals)+1)
		for i, x := range q.Vals {
			rr := rangedb.ResultRecord{Record: &rangedb.Record{GlobalSequenceNumber: uint64(i + 1)}}
			switch x.K {
			case "!":
				rr = rangedb.ResultRecord{Err: errors.New("lost")}
			case "":
				if i%2 == 0 {
					rr.Record.Data = stranger{}
				} else {
					rr.Record.Data = map[string]interface{}{"ID": "x"}
				}
			default:
				for _, e := range p.events {
					if reflect.TypeOf(e).Name() == x.K {
						v := reflect.New(reflect.TypeOf(e))
						set(v.Elem(), []kv{{N: "ID", V: x.V}})
						rr.Record.Data = v.Interface()
						if i%3 == 0 {
							rr.Record.Data = v.Elem().Interface()
						}
					}
				}
			}
			ch <- rr
		}
		close(ch)
		a.(cqrs.Aggregate).Load(rangedb.NewRecordIterator(ch))
		r["out"] = append([]string{}, done()...)
	case "handle":
		a, done := p.agg()
		for round := 0; round < 2; round++ { // what was raised before is not given again
			v := reflect.New(reflect.TypeOf(p.commands[q.I]))
			set(v.Elem(), []kv{{N: "ID", V: q.Vals[0].V}})
			cmd := v.Elem().Interface().(cqrs.Command)
			if q.Ptr {
				cmd = v.Interface().(cqrs.Command)
			}
			back := []string{}
			for _, e := range a.(cqrs.Aggregate).Handle(cmd) {
				back = append(back, e.EventType()+":"+e.AggregateID())
			}
			r["out"], r["back"] = append([]string{}, done()...), back
			r["c"], r["v"] = v.Elem().Type().Name(), q.Vals[0].V
		}
	}
	return r
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<24)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var q req
		if err := json.Unmarshal(in.Bytes(), &q); err != nil {
			panic(err)
		}
		_ = out.Encode(pkgs[q.P].do(q))
	}
}
`

// declSession drives the program made of all generated packages.
type declSession struct {
	mu  sync.Mutex
	in  io.Writer
	out *bufio.Scanner
}

func (s *declSession) call(q line) line {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, _ := json.Marshal(q)
	_, err := s.in.Write(append(b, '\n'))
	must(err)
	if !s.out.Scan() {
		must(fmt.Errorf("the generated code ended"))
	}
	l := line{}
	must(json.Unmarshal(s.out.Bytes(), &l))
	return l
}

func (d *declPkg) val(f declField, i int) line {
	v := []string{"", "a", "été 1", "{x:y}", "a:b}", "0", "long" + strings.Repeat("x", 40)}[d.rnd.Intn(7)]
	if f.Mark == "" && strings.HasSuffix(f.N, "Encrypted") {
		v = ""
	}
	if f.N == "ID" || f.Mark == "subject" {
		v = fmt.Sprintf("%s%d", []string{"s", "x:", "é"}[d.rnd.Intn(3)], i%3)
	}
	if f.Ty == "int" {
		v = fmt.Sprint([]int{0, 1, -1, 7, 1980, 2147483647, -9223372036854775808, 9223372036854775807}[d.rnd.Intn(8)])
	}
	return line{"n": f.N, "v": v, "k": ""}
}

// run performs the operations of the script on the generated code.
func (d *declPkg) run(s *declSession) {
	ep := d.ep
	log := func(l line, res line) string {
		for k, v := range res {
			l[k] = v
		}
		r := fmt.Sprint(l["r"])
		ep.sig[fmt.Sprintf("%v:%v", l["e"], r)]++
		ep.log(l)
		return r
	}
	log(line{"e": "bind"}, s.call(line{"P": d.name, "Op": "bind"}))
	log(line{"e": "cmds", "declared": d.cmds}, s.call(line{"P": d.name, "Op": "cmds"}))
	cur, state, subject := -1, "", ""
	for i, op := range d.ops {
		if state == "redacted" && op.Op != "load" && op.Op != "handle" && op.Op != "id" {
			op = scriptOp{Op: "new", S: 1 + op.S%len(d.structs)}
		}
		if cur < 0 && op.Op != "load" && op.Op != "handle" {
			op = scriptOp{Op: "new", S: 1 + op.S%len(d.structs)}
		}
		switch op.Op {
		case "new":
			cur = (op.S - 1) % len(d.structs)
			vals := []line{}
			subject = ""
			for _, f := range d.structs[cur].Fields {
				v := d.val(f, i)
				vals = append(vals, v)
				if f.Mark == "subject" {
					subject = v["v"].(string)
				}
			}
			state = "plain"
			log(line{"e": "new", "i": cur + 1, "vals": vals}, s.call(line{"P": d.name, "Op": "new", "I": cur + 1, "Vals": vals}))
		case "enc", "dec":
			what := op.Op
			if what == "enc" && state == "enc" {
				what = "dec"
			}
			r := log(line{"e": what, "pos": op.Pos, "fail": op.Fail}, s.call(line{"P": d.name, "Op": what, "Pos": op.Pos, "Fail": op.Fail}))
			switch {
			case r == "panic":
				return
			case r == "del":
				state = "redacted"
			case r == "ok" && what == "enc" && personal(d.structs[cur]):
				state = "enc"
			case r == "ok":
				state = "plain"
			}
		case "forget":
			if subject != "" && d.rnd.Intn(2) == 0 {
				log(line{"e": "forget", "s": subject}, s.call(line{"P": d.name, "Op": "forget", "Vals": []line{{"v": subject}}}))
			}
		case "id":
			if state == "plain" {
				log(line{"e": "id"}, s.call(line{"P": d.name, "Op": "id"}))
			}
		case "load":
			in := []line{}
			for k := op.N % 7; k > 0; k-- {
				x := line{"k": "", "v": fmt.Sprintf("v%d", k), "n": ""}
				switch y := d.rnd.Intn(12); {
				case y == 0:
					x["k"] = "!"
				case y < 3:
				default:
					x["k"] = d.structs[d.rnd.Intn(len(d.structs))].Name
				}
				in = append(in, x)
			}
			// what the aggregate does not know is unknown to it
			seen := []line{}
			for _, x := range in {
				y := line{"k": x["k"], "v": x["v"]}
				if n := x["k"].(string); n != "!" && !d.aggKnows(n) {
					y["k"] = ""
				}
				seen = append(seen, y)
			}
			log(line{"e": "load", "in": seen}, s.call(line{"P": d.name, "Op": "load", "Vals": in}))
		case "handle":
			log(line{"e": "handle"}, s.call(line{"P": d.name, "Op": "handle", "I": op.N % len(d.cmds), "Ptr": op.N%2 == 0, "Vals": []line{{"v": fmt.Sprint("c", i)}}}))
		}
	}
}

func (d *declPkg) aggKnows(n string) bool {
	for i, s := range d.structs {
		if s.Name == n {
			return i < d.cutAt
		}
	}
	return false
}

func personal(s declStruct) bool {
	for _, f := range s.Fields {
		if f.Mark == "personal" || f.Mark == "number" {
			return true
		}
	}
	return false
}

// generated runs the generators on every script, builds what they wrote, and uses it.
func generated(cfg *Cfg) job {
	return job{name: "generated", many: func(emit func(*Ep)) {
		mod := os.Getenv("VH_MOD")
		bin, root := filepath.Join(cfg.out, "gen-bin"), filepath.Join(cfg.out, "genmod")
		must(os.MkdirAll(bin, 0755))
		must(os.MkdirAll(root, 0755))
		goRun := func(args ...string) (string, error) {
			c := exec.Command("go", args...)
			c.Dir = root
			b, err := c.CombinedOutput()
			return string(b), err
		}
		b, err := os.ReadFile(filepath.Join(mod, "go.mod"))
		must(err)
		must(os.WriteFile(filepath.Join(root, "go.mod"), []byte(strings.Replace(string(b), "module verifharness", "module generated", 1)), 0644))
		b, err = os.ReadFile(filepath.Join(mod, "go.sum"))
		must(err)
		must(os.WriteFile(filepath.Join(root, "go.sum"), b, 0644))
		for _, g := range []string{"eventgenerator", "commandgenerator", "aggregategenerator", "eventbinder"} {
			if out, err := goRun("build", "-o", filepath.Join(bin, g), "github.com/inklabs/rangedb/gen/"+g); err != nil {
				must(fmt.Errorf("%s: %s", g, out))
			}
		}
		var pkgs []*declPkg
		for _, mode := range []string{"gok", "gbad"} {
			for i, sc := range cfg.scripts[mode] {
				d := &declPkg{name: fmt.Sprintf("%s%d", mode, i), r: "ok", rnd: rand.New(rand.NewSource(cfg.seed*5003 + int64(i)))}
				for _, op := range sc {
					if op.Op == "struct" {
						d.structs = append(d.structs, declStruct{Fields: op.Fields})
					} else {
						d.ops = append(d.ops, op)
					}
				}
				d.rename()
				d.ep = newEp(d.name)
				d.ep.spec, d.ep.head = "EventCodeTrace", line{"recs": []line{}}
				pkgs = append(pkgs, d)
			}
		}
		var wg sync.WaitGroup
		slots := make(chan bool, 8)
		for _, d := range pkgs {
			wg.Add(1)
			slots <- true
			go func(d *declPkg) {
				defer wg.Done()
				d.write(filepath.Join(root, d.name), bin)
				<-slots
			}(d)
		}
		wg.Wait()
		out, _ := goRun("build", "-gcflags=-e", "./...")
		failed := map[string]string{}
		for _, m := range regexp.MustCompile(`(?m)^# generated/(\w+)\n(.*)`).FindAllStringSubmatch(out, -1) {
			failed[m[1]] = m[2]
		}
		for _, m := range regexp.MustCompile(`(?m)^(?:package generated/)?(\w+)/\w+\.go:(.*)`).FindAllStringSubmatch(out, -1) {
			failed[m[1]] = m[2] // does not even parse
		}
		var imports, table strings.Builder
		for _, d := range pkgs {
			if msg, bad := failed[d.name]; bad && d.r == "ok" {
				d.r = "nocompile"
				d.ep.log(line{"e": "decl", "structs": d.structs, "r": d.r, "msg": short(msg)})
			} else {
				d.ep.log(line{"e": "decl", "structs": d.structs, "r": d.r})
			}
			d.ep.sig["decl:"+d.r]++
			if d.r == "ok" {
				fmt.Fprintf(&imports, "\t%q\n", "generated/"+d.name)
				fmt.Fprintf(&table, "\t%q: {events: %s.Events, known: %s.Known, commands: %s.Commands, bind: %s.BindEvents, agg: %s.New, gone: map[string]bool{}},\n", d.name, d.name, d.name, d.name, d.name, d.name)
			}
		}
		must(os.MkdirAll(filepath.Join(root, "driver"), 0755))
		must(os.WriteFile(filepath.Join(root, "driver", "main.go"), []byte(driverMain), 0644))
		must(os.WriteFile(filepath.Join(root, "driver", "table.go"), []byte("package main\n\nimport (\n"+imports.String()+")\n\nvar pkgs = map[string]*pkg{\n"+table.String()+"}\n"), 0644))
		if out, err := goRun("build", "-o", filepath.Join(bin, "driver"), "./driver"); err != nil {
			must(fmt.Errorf("the generated code does not link: %s", out))
		}
		c := exec.Command(filepath.Join(bin, "driver"))
		in, err := c.StdinPipe()
		must(err)
		so, err := c.StdoutPipe()
		must(err)
		must(c.Start())
		s := &declSession{in: in, out: bufio.NewScanner(so)}
		s.out.Buffer(nil, 1<<24)
		for _, d := range pkgs {
			if d.r == "ok" {
				d.run(s)
			}
			emit(d.ep)
		}
		_ = in.Close()
		_ = c.Wait()
		must(os.RemoveAll(root))
		must(os.RemoveAll(bin))
	}}
}

func init() {
	planners["P24"] = func(cfg *Cfg) []job { return []job{generated(cfg)} }
}
