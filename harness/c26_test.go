package zverif

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	gogoproto "github.com/cosmos/gogoproto/proto"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	protov2 "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"pgregory.net/rapid"

	dexapi "defund/api/defund/dex"
	chain "defund/app"
	"defund/x/dex/types"
)

var _ = dexapi.MsgCreatePair{}

// dexMessages are the names of all messages the module defines.
func dexMessages() (out []string) {
	gogoproto.HybridResolver.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		if f.Package() == "defund.dex" {
			for i := 0; i < f.Messages().Len(); i++ {
				out = append(out, string(f.Messages().Get(i).FullName()))
			}
		}
		return true
	})
	sort.Strings(out)
	return
}

func newMessage(name string) gogoproto.Message {
	return reflect.New(gogoproto.MessageType(name).Elem()).Interface().(gogoproto.Message)
}

var (
	intType  = reflect.TypeOf(math.Int{})
	decType  = reflect.TypeOf(math.LegacyDec{})
	timeType = reflect.TypeOf(time.Time{})
	durType  = reflect.TypeOf(time.Duration(0))
)

func anyString(rt *rapid.T) string {
	return pick(rt, []string{"", "a", "stake", "pool1", "defund1qqqsyqcyq5rqwzqfpg9scrgwpugpzysn89sf3z", "日本 \"\\\n\t<>&\u2028", strings.Repeat("x", 200), "\x00\x7f", "é"}, "string")
}

// fill sets a value to a drawn one.
func fill(rt *rapid.T, v reflect.Value, depth int) {
	switch v.Type() {
	case intType:
		v.Set(reflect.ValueOf(toInt(drawSigned(rt, pick(rt, []int{1, 10, 76}, "digits"), "int"))))
		return
	case decType:
		v.Set(reflect.ValueOf(decOf(drawSigned(rt, pick(rt, []int{3, 19, 40, 90}, "digits"), "dec"))))
		return
	case timeType:
		v.Set(reflect.ValueOf(pick(rt, []time.Time{{}, time.Unix(0, 0).UTC(), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2022, 1, 1, 0, 0, 0, int(uni(rt, 0, 999999999, "nanos")), time.UTC), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC)}, "time")))
		return
	case durType:
		v.Set(reflect.ValueOf(time.Duration(pick(rt, []int64{0, 1, -1, 1<<63 - 1, -1 << 63, int64(time.Hour), uni(rt, -1<<61, 1<<61, "duration")}, "duration"))))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if rapid.Bool().Draw(rt, "nil") {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(rt, v.Elem(), depth)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && !strings.HasPrefix(v.Type().Field(i).Name, "XXX_") {
				if f := v.Field(i); rare(rt, 2, "zero") && f.Type() != intType && f.Type() != decType && f.Kind() != reflect.Struct {
					continue
				}
				fill(rt, v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.Set(reflect.ValueOf(rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "bytes")).Convert(v.Type()))
			return
		}
		n := int(uni(rt, 0, max64(0, int64(4-depth)), "length"))
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			e := s.Index(i)
			if e.Kind() == reflect.Ptr {
				e.Set(reflect.New(e.Type().Elem()))
				e = e.Elem()
			}
			fill(rt, e, depth+1)
		}
		v.Set(s)
	case reflect.String:
		v.SetString(anyString(rt))
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(rt, "bool"))
	case reflect.Int32:
		if v.Type().PkgPath() != "" { // an enumeration
			v.SetInt(uni(rt, 0, 2, "enum"))
		} else {
			v.SetInt(pick(rt, []int64{0, 1, -1, 1<<31 - 1, -1 << 31}, "int32"))
		}
	case reflect.Int64:
		v.SetInt(pick(rt, []int64{0, 1, -1, 1<<63 - 1, -1 << 63, 300, uni(rt, 0, 1<<60, "int64")}, "int64"))
	case reflect.Uint32:
		v.SetUint(uint64(pick(rt, []int64{0, 1, 127, 128, 1<<32 - 1, uni(rt, 0, 1<<32-1, "uint32")}, "uint32")))
	case reflect.Uint64:
		v.SetUint(pick(rt, []uint64{0, 1, 127, 128, 1 << 32, 1<<64 - 1, uint64(uni(rt, 0, 1<<60, "uint64"))}, "uint64"))
	default:
		panic("cannot fill " + v.Type().String())
	}
}

// canon prints a value in a canonical way.
func canon(b *strings.Builder, v reflect.Value) {
	switch v.Type() {
	case intType, decType:
		if v.Field(0).IsNil() {
			b.WriteString("unset")
			return
		}
		fmt.Fprintf(b, "%v", v.Interface())
		return
	case timeType:
		fmt.Fprintf(b, "%d.%d", v.Interface().(time.Time).Unix(), v.Interface().(time.Time).Nanosecond())
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		canon(b, v.Elem())
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if strings.HasPrefix(v.Type().Field(i).Name, "XXX_") {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			canon(b, v.Field(i))
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			canon(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%#v", v.Interface())
	}
}

func canonical(x interface{}) string {
	var b strings.Builder
	canon(&b, reflect.ValueOf(x).Elem())
	return b.String()
}

func protoName(f reflect.StructField) string {
	for _, p := range strings.Split(f.Tag.Get("protobuf"), ",") {
		if strings.HasPrefix(p, "name=") {
			return p[5:]
		}
	}
	return ""
}

// sameFields compares a value with a message of the other code family, field by field.
func sameFields(v reflect.Value, m protoreflect.Message, path string) error {
	fields := m.Descriptor().Fields()
	n := 0
	for i := 0; i < v.NumField(); i++ {
		name := protoName(v.Type().Field(i))
		if name == "" {
			continue
		}
		n++
		fd := fields.ByName(protoreflect.Name(name))
		if fd == nil {
			return fmt.Errorf("%s.%s is missing in the API", path, name)
		}
		f := v.Field(i)
		if f.Kind() == reflect.Ptr {
			if f.IsNil() {
				if m.Has(fd) {
					return fmt.Errorf("%s.%s is set in the API only", path, name)
				}
				continue
			}
			f = f.Elem()
		}
		if f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8 {
			l := m.Get(fd).List()
			if l.Len() != f.Len() {
				return fmt.Errorf("%s.%s has %d elements, %d in the API", path, name, f.Len(), l.Len())
			}
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				if e.Kind() == reflect.Ptr {
					e = e.Elem()
				}
				if err := sameValue(e, l.Get(j), fd, fmt.Sprintf("%s.%s[%d]", path, name, j)); err != nil {
					return err
				}
			}
			continue
		}
		if err := sameValue(f, m.Get(fd), fd, path+"."+name); err != nil {
			return err
		}
	}
	if n != fields.Len() {
		return fmt.Errorf("%s has %d fields, %d in the API", path, n, fields.Len())
	}
	return nil
}

func sameValue(f reflect.Value, p protoreflect.Value, fd protoreflect.FieldDescriptor, path string) error {
	want, got := "", p.String()
	switch {
	case f.Type() == intType:
		want = f.Interface().(math.Int).String()
	case f.Type() == decType:
		want = f.Interface().(math.LegacyDec).BigInt().String()
	case f.Type() == timeType:
		t := f.Interface().(time.Time)
		want = fmt.Sprint(t.Unix(), " ", t.Nanosecond())
		got = secondsNanos(p.Message())
	case f.Type() == durType:
		d := int64(f.Interface().(time.Duration))
		want = fmt.Sprint(d/1e9, " ", d%1e9)
		got = secondsNanos(p.Message())
	case f.Kind() == reflect.Struct:
		return sameFields(f, p.Message(), path)
	case f.Kind() == reflect.Slice:
		want, got = fmt.Sprintf("%x", f.Bytes()), fmt.Sprintf("%x", p.Bytes())
	case fd.Kind() == protoreflect.EnumKind:
		want, got = fmt.Sprint(f.Int()), fmt.Sprint(p.Enum())
		if v := fd.Enum().Values().ByNumber(p.Enum()); v == nil || string(v.Name()) != fmt.Sprint(f.Interface()) {
			return fmt.Errorf("%s: %v is not in the API", path, f.Interface())
		}
	default:
		want = fmt.Sprint(f.Interface())
	}
	if want != got {
		return fmt.Errorf("%s is %q, %q in the API", path, want, got)
	}
	return nil
}

func secondsNanos(m protoreflect.Message) string {
	get := func(n string) int64 { return m.Get(m.Descriptor().Fields().ByName(protoreflect.Name(n))).Int() }
	return fmt.Sprint(get("seconds"), " ", get("nanos"))
}

func protodescOf(name string) protoreflect.MessageDescriptor {
	d, err := gogoproto.HybridResolver.FindDescriptorByName(protoreflect.FullName(name))
	must(err)
	return d.(protoreflect.MessageDescriptor)
}

// longVarint writes a number, at times longer than needed.
func longVarint(rt *rapid.T, bz []byte, v uint64) []byte {
	bz = protowire.AppendVarint(bz, v)
	if v < 1<<48 && rare(rt, 6, "long") {
		for i, n := 0, int(uni(rt, 1, 2, "padding")); i < n; i++ {
			bz[len(bz)-1] |= 0x80
			bz = append(bz, 0)
		}
	}
	return bz
}

// rewrite writes an encoded message in another way with the same meaning: fields in another order, lists of numbers
// element by element or in several parts, numbers longer than needed, values which later ones replace.
func rewrite(rt *rapid.T, md protoreflect.MessageDescriptor, bz []byte) (out []byte) {
	var fields [][]byte // the encoded parts by field
	at := map[protowire.Number]int{}
	for len(bz) > 0 {
		num, typ, n := protowire.ConsumeTag(bz)
		m := protowire.ConsumeFieldValue(num, typ, bz[n:])
		val := bz[n : n+m]
		bz = bz[n+m:]
		fd := md.Fields().ByNumber(num)
		tag := func(bz []byte, typ protowire.Type) []byte { return longVarint(rt, bz, protowire.EncodeTag(num, typ)) }
		var f []byte
		switch {
		case typ == protowire.BytesType:
			inner, _ := protowire.ConsumeBytes(val)
			switch {
			case fd.IsList() && fd.Kind() != protoreflect.MessageKind && fd.Kind() != protoreflect.StringKind && fd.Kind() != protoreflect.BytesKind:
				var part []byte
				flush := func() {
					if len(part) > 0 || rare(rt, 5, "empty part") {
						f = tag(f, protowire.BytesType)
						f = longVarint(rt, f, uint64(len(part)))
						f = append(f, part...)
						part = nil
					}
				}
				for len(inner) > 0 {
					v, n := protowire.ConsumeVarint(inner)
					inner = inner[n:]
					switch uni(rt, 0, 2, "way") {
					case 0:
						flush()
						f = longVarint(rt, tag(f, protowire.VarintType), v)
					case 1:
						flush()
						part = longVarint(rt, part, v)
					case 2:
						part = longVarint(rt, part, v)
					}
				}
				flush()
			case fd.Kind() == protoreflect.MessageKind:
				inner = rewrite(rt, fd.Message(), inner)
				f = append(longVarint(rt, tag(f, typ), uint64(len(inner))), inner...)
			default:
				if !fd.IsList() && fd.Kind() == protoreflect.StringKind && rare(rt, 6, "earlier") {
					f = append(tag(f, typ), 2, '7', '3')
				}
				f = append(longVarint(rt, tag(f, typ), uint64(len(inner))), inner...)
			}
		case typ == protowire.VarintType:
			v, _ := protowire.ConsumeVarint(val)
			if !fd.IsList() && rare(rt, 6, "earlier") {
				f = append(tag(f, typ), 1)
			}
			f = longVarint(rt, tag(f, typ), v)
		default:
			f = append(tag(f, typ), val...)
		}
		i, ok := at[num]
		if !ok {
			i = len(fields)
			at[num] = i
			fields = append(fields, nil)
		}
		fields[i] = append(fields[i], f...)
	}
	if len(fields) > 1 && rapid.Bool().Draw(rt, "reorder") {
		fields = rapid.Permutation(fields).Draw(rt, "order")
	}
	for _, f := range fields {
		out = append(out, f...)
	}
	return
}

// damage changes bytes.
func damage(rt *rapid.T, bz []byte) []byte {
	out := append([]byte{}, bz...)
	for i, n := 0, int(uni(rt, 1, 3, "damages")); i < n; i++ {
		at := int(uni(rt, 0, int64(len(out)), "at"))
		b := byte(pick(rt, []int64{0, 1, 0x0a, 0x12, 0x22, 0x7f, 0x80, 0xff, '0', '-', uni(rt, 0, 255, "byte")}, "byte"))
		switch uni(rt, 0, 4, "damage") {
		case 0:
			out = out[:at]
		case 1:
			if at < len(out) {
				out[at] = b
			}
		case 2:
			out = append(out[:at:at], append([]byte{b}, out[at:]...)...)
		case 3:
			if at < len(out) {
				out = append(out[:at:at], out[at+1:]...)
			}
		case 4: // a part once more
			to := at + int(uni(rt, 0, int64(len(out)-at), "to"))
			out = append(out, out[at:to]...)
		}
	}
	return out
}

func TestC26(t *testing.T) {
	names := dexMessages()
	once(t, "descriptors", func(t *testing.T, c *Case) {
		if len(names) < 40 {
			t.Fatalf("only %d messages", len(names))
		}
		for _, n := range names {
			md, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(n))
			if err != nil {
				t.Fatalf("%s is not in the API: %v", n, err)
			}
			gd, err := gogoproto.HybridResolver.FindDescriptorByName(protoreflect.FullName(n))
			if err != nil {
				t.Fatalf("%s: %v", n, err)
			}
			x, y := protodesc.ToDescriptorProto(md.(protoreflect.MessageDescriptor)), protodesc.ToDescriptorProto(gd.(protoreflect.MessageDescriptor))
			for _, d := range []*descriptorpb.DescriptorProto{x, y} {
				d.Options = nil
				for _, f := range d.Field {
					f.Options = nil
				}
			}
			if !protov2.Equal(x, y) {
				t.Fatalf("%s differs:\n%v\n%v", n, x, y)
			}
			each(n, true)
		}
		// every message of the service is a transaction message with a handler
		app, _ := branch()
		sd, err := gogoproto.HybridResolver.FindDescriptorByName("defund.dex.Msg")
		must(err)
		ms := sd.(protoreflect.ServiceDescriptor).Methods()
		for i := 0; i < ms.Len(); i++ {
			url := "/" + string(ms.Get(i).Input().FullName())
			if app.MsgServiceRouter().HandlerByTypeURL(url) == nil {
				t.Fatalf("no handler of %s", url)
			}
			m, err := app.AppCodec().InterfaceRegistry().Resolve(url)
			if err != nil {
				t.Fatalf("%s: %v", url, err)
			}
			if _, ok := m.(sdk.Msg); !ok {
				t.Fatalf("%s is no message", url)
			}
			each(url, true)
		}
		qd, err := gogoproto.HybridResolver.FindDescriptorByName("defund.dex.Query")
		must(err)
		ms = qd.(protoreflect.ServiceDescriptor).Methods()
		for i := 0; i < ms.Len(); i++ {
			if app.GRPCQueryRouter().Route("/defund.dex.Query/"+string(ms.Get(i).Name())) == nil {
				t.Fatalf("no handler of the query %s", ms.Get(i).Name())
			}
			each(string(ms.Get(i).FullName()), true)
		}
	})
	prop(t, "round trips", 80000, func(rt *rapid.T, c *Case) {
		app, _ := branch()
		name := pick(rt, names, "type")
		x := newMessage(name)
		fill(rt, reflect.ValueOf(x).Elem(), 0)
		text := canonical(x)
		c.Logf("%s %s", name, text)
		bz, err := gogoproto.Marshal(x)
		must(err)
		bz2, err := app.AppCodec().Marshal(x)
		must(err)
		if !bytes.Equal(bz, bz2) {
			rt.Fatalf("two encodings %x %x", bz, bz2)
		}
		if canonical(x) != text {
			rt.Fatalf("encoding changes the value to %s", canonical(x))
		}
		if s, ok := x.(interface{ Size() int }); !ok || s.Size() != len(bz) {
			rt.Fatalf("the size is %d, want %d", s.Size(), len(bz))
		}
		// into a buffer which is larger than needed
		if m, ok := x.(interface {
			MarshalToSizedBuffer([]byte) (int, error)
		}); ok {
			buf := make([]byte, len(bz)+7)
			n, err := m.MarshalToSizedBuffer(buf)
			if err != nil || n != len(bz) || !bytes.Equal(buf[7:], bz) {
				rt.Fatalf("in a larger buffer: %d %v %x", n, err, buf)
			}
		}
		y := newMessage(name)
		if err := app.AppCodec().Unmarshal(bz, y); err != nil {
			rt.Fatalf("%x: %v", bz, err)
		}
		if canonical(y) != text {
			rt.Fatalf("decoded as %s\nfrom %x", canonical(y), bz)
		}
		// the same value written in another way, as the encoding allows it
		other := rewrite(rt, protodescOf(name), bz)
		if !bytes.Equal(other, bz) {
			c.Label("written in another way")
			w := newMessage(name)
			if err := app.AppCodec().Unmarshal(other, w); err != nil || canonical(w) != text {
				rt.Fatalf("%x, another encoding, is decoded as %s %v", other, canonical(w), err)
			}
		}
		// the other code family
		at, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(name))
		must(err)
		a := at.New()
		if err := protov2.Unmarshal(bz, a.Interface()); err != nil {
			rt.Fatalf("the API refuses %x: %v", bz, err)
		}
		if err := sameFields(reflect.ValueOf(x).Elem(), a, name); err != nil {
			rt.Fatalf("%v", err)
		}
		if !bytes.Equal(other, bz) {
			w := at.New()
			if err := protov2.Unmarshal(other, w.Interface()); err != nil || !protov2.Equal(a.Interface(), w.Interface()) {
				rt.Fatalf("%x, another encoding, is decoded by the API as %v %v", other, w, err)
			}
		}
		abz, err := protov2.MarshalOptions{Deterministic: true}.Marshal(a.Interface())
		if err != nil || !bytes.Equal(abz, bz) {
			rt.Fatalf("the API encodes it as\n%x\nwant\n%x\n%v", abz, bz, err)
		}
		if n := protov2.Size(a.Interface()); n != len(bz) {
			rt.Fatalf("the API has size %d, want %d", n, len(bz))
		}
		if jz, err := protojson.Marshal(a.Interface()); err == nil {
			b := at.New()
			if err := protojson.Unmarshal(jz, b.Interface()); err != nil || !protov2.Equal(a.Interface(), b.Interface()) {
				rt.Fatalf("JSON of the API: %v\n%s", err, jz)
			}
		}
		// JSON
		jz, err := app.AppCodec().MarshalJSON(x)
		if err != nil {
			rt.Fatalf("JSON: %v", err)
		}
		z := newMessage(name)
		if err := app.AppCodec().UnmarshalJSON(jz, z); err != nil {
			rt.Fatalf("JSON: %v\n%s", err, jz)
		}
		if canonical(z) != text {
			rt.Fatalf("JSON decoded as %s\nfrom %s", canonical(z), jz)
		}
		if len(bz) > 0 {
			c.NonTrivial()
		}
		c.Label(kindOfMessage(name))
		recordFuncs(rt, app.AppCodec(), x, bz, text)
	})
	prop(t, "transactions", 12000, func(rt *rapid.T, c *Case) {
		app, _ := branch()
		tc := authtx.NewTxConfig(app.AppCodec(), authtx.DefaultSignModes)
		b := tc.NewTxBuilder()
		var msgs []sdk.Msg
		var signers []string
		seen := map[string]bool{}
		for i, n := 0, int(uni(rt, 1, 3, "messages")); i < n; i++ {
			name := pick(rt, names, "type")
			for !strings.HasPrefix(name, "defund.dex.Msg") || strings.HasSuffix(name, "Response") {
				name = pick(rt, names, "type")
			}
			m := newMessage(name).(sdk.Msg)
			fill(rt, reflect.ValueOf(m).Elem(), 0)
			signer := addrN(uint64(uni(rt, 1, 4, "signer"))).String()
			v := reflect.ValueOf(m).Elem()
			set := false
			for _, f := range []string{"Creator", "Depositor", "Withdrawer", "Orderer", "Authority"} {
				if x := v.FieldByName(f); x.IsValid() {
					x.SetString(signer)
					set = true
				}
			}
			if !set {
				rt.Fatalf("%s has no signer", name)
			}
			msgs = append(msgs, m)
			ss, _, err := app.AppCodec().GetMsgV1Signers(m)
			if err != nil || len(ss) != 1 || sdk.AccAddress(ss[0]).String() != signer {
				rt.Fatalf("%s: signers %v %v, want %s", name, ss, err, signer)
			}
			if l, ok := m.(interface{ GetSigners() []sdk.AccAddress }); ok {
				if g := l.GetSigners(); len(g) != 1 || g[0].String() != signer {
					rt.Fatalf("%s: signers %v, want %s", name, g, signer)
				}
			}
			if !seen[signer] {
				seen[signer] = true
				signers = append(signers, signer)
			}
			any, err := codectypes.NewAnyWithValue(m)
			must(err)
			if any.TypeUrl != "/"+name || sdk.MsgTypeURL(m) != "/"+name {
				rt.Fatalf("%s is packed as %s", name, any.TypeUrl)
			}
			var back sdk.Msg
			if err := app.AppCodec().InterfaceRegistry().UnpackAny(&codectypes.Any{TypeUrl: any.TypeUrl, Value: any.Value}, &back); err != nil || canonical(back) != canonical(m) {
				rt.Fatalf("%s unpacked as %v, %v", name, back, err)
			}
			c.Label(kindOfMessage(name))
			c.Logf("%s by %s: %s", name, userName(signer), canonical(m))
		}
		must(b.SetMsgs(msgs...))
		b.SetMemo(anyString(rt))
		b.SetGasLimit(uint64(uni(rt, 0, 1<<50, "gas")))
		bz, err := tc.TxEncoder()(b.GetTx())
		must(err)
		check := func(tx sdk.Tx, err error, how string) {
			if err != nil {
				rt.Fatalf("%s: %v", how, err)
			}
			got := tx.GetMsgs()
			if len(got) != len(msgs) {
				rt.Fatalf("%s: %d messages", how, len(got))
			}
			for i := range got {
				if canonical(got[i]) != canonical(msgs[i]) || reflect.TypeOf(got[i]) != reflect.TypeOf(msgs[i]) {
					rt.Fatalf("%s: message %s\nwant %s", how, canonical(got[i]), canonical(msgs[i]))
				}
			}
			ss, err := tx.(interface{ GetSigners() ([][]byte, error) }).GetSigners()
			if err != nil || len(ss) != len(signers) {
				rt.Fatalf("%s: signers %v %v, want %v", how, ss, err, signers)
			}
			for i := range ss {
				if sdk.AccAddress(ss[i]).String() != signers[i] {
					rt.Fatalf("%s: signer %s, want %s", how, sdk.AccAddress(ss[i]), signers[i])
				}
			}
		}
		tx, err := tc.TxDecoder()(bz)
		check(tx, err, "binary")
		if again, err := tc.TxEncoder()(tx); err != nil || !bytes.Equal(again, bz) {
			rt.Fatalf("encoded again differently: %v\n%x\n%x", err, again, bz)
		}
		jz, err := tc.TxJSONEncoder()(b.GetTx())
		if err != nil {
			rt.Fatalf("JSON: %v", err)
		}
		tx, err = tc.TxJSONDecoder()(jz)
		check(tx, err, "JSON")
		c.NonTrivial()
		// a damaged transaction is refused, or decoded consistently
		bad := damage(rt, bz)
		if e := tryCall(func() {
			tx, err = tc.TxDecoder()(bad)
			if err == nil {
				again, err := tc.TxEncoder()(tx)
				if err != nil {
					rt.Fatalf("cannot be encoded again: %v", err)
				}
				back, err := tc.TxDecoder()(again)
				if err != nil || len(back.GetMsgs()) != len(tx.GetMsgs()) {
					rt.Fatalf("encoded again it is refused: %v", err)
				}
				for i, m := range back.GetMsgs() {
					if canonical(m) != canonical(tx.GetMsgs()[i]) {
						rt.Fatalf("it changes when encoded again")
					}
				}
			}
		}); e != nil {
			rt.Fatalf("decoding %x: panic %v", bad, e)
		}
		// the application refuses an unsigned transaction without crashing, damaged or not
		for _, z := range [][]byte{bz, bad} {
			if e := tryCall(func() {
				r, err := app.CheckTx(&abci.RequestCheckTx{Tx: z})
				if err == nil && r.Code == 0 {
					rt.Fatalf("an unsigned transaction is accepted")
				}
			}); e != nil {
				rt.Fatalf("checking %x: panic %v", z, e)
			}
		}
	})
	prop(t, "malformed bytes", 120000, func(rt *rapid.T, c *Case) {
		app, _ := branch()
		name := pick(rt, names, "type")
		x := newMessage(name)
		fill(rt, reflect.ValueOf(x).Elem(), 0)
		bz, err := gogoproto.Marshal(x)
		must(err)
		if rare(rt, 5, "random") {
			bz = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, "bytes")
		}
		bz = damage(rt, bz)
		c.Logf("%s %x", name, bz)
		y := newMessage(name)
		if e := tryCall(func() { err = app.AppCodec().Unmarshal(bz, y) }); e != nil {
			rt.Fatalf("panic: %v", e)
		}
		accepted := err == nil
		if accepted {
			c.Label("accepted")
			stable(rt, app, name, y)
		} else {
			c.Label("refused")
			c.NonTrivial()
		}
		at, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(name))
		must(err)
		a := at.New()
		var aerr error
		if e := tryCall(func() { aerr = protov2.Unmarshal(bz, a.Interface()) }); e != nil {
			rt.Fatalf("panic in the API: %v", e)
		}
		if aerr == nil {
			abz, err := protov2.MarshalOptions{Deterministic: true}.Marshal(a.Interface())
			must(err)
			b := at.New()
			if err := protov2.Unmarshal(abz, b.Interface()); err != nil || !protov2.Equal(a.Interface(), b.Interface()) {
				rt.Fatalf("the API decodes its own encoding differently: %v", err)
			}
		}
		if accepted && aerr == nil && reflect.TypeOf(y).Elem().NumField() > 0 {
			// what both accept they understand alike
			abz, _ := protov2.MarshalOptions{Deterministic: true}.Marshal(a.Interface())
			z := newMessage(name)
			if e := tryCall(func() { err = app.AppCodec().Unmarshal(abz, z) }); e != nil {
				rt.Fatalf("panic: %v", e)
			}
			if err == nil && complete(y) && complete(z) && canonical(z) != canonical(y) { // an empty number is left out by the API
				rt.Fatalf("understood as\n%s\nthrough the API\n%s", canonical(y), canonical(z))
			}
		}
		jz, err := app.AppCodec().MarshalJSON(x)
		must(err)
		jz = damage(rt, jz)
		z := newMessage(name)
		if e := tryCall(func() { err = app.AppCodec().UnmarshalJSON(jz, z) }); e != nil {
			rt.Fatalf("panic for the JSON %s: %v", jz, e)
		}
		if err == nil && complete(z) {
			stable(rt, app, name, z)
		}
	})
}

// complete tells whether all numbers are set.
func complete(x gogoproto.Message) bool { return !strings.Contains(canonical(x), "unset") }

// stable checks that a decoded value is encoded to an equal one.
func stable(rt *rapid.T, app *chain.App, name string, y gogoproto.Message) {
	text := canonical(y)
	if !complete(y) {
		text = ""
	}
	var bz []byte
	var err error
	if e := tryCall(func() { bz, err = app.AppCodec().Marshal(y) }); e != nil || err != nil {
		rt.Fatalf("%s was decoded but is not encoded: %v %v", canonical(y), e, err)
	}
	z := newMessage(name)
	if err := app.AppCodec().Unmarshal(bz, z); err != nil || text != "" && canonical(z) != text {
		rt.Fatalf("decoded as\n%s\nagain as\n%s\n%v", text, canonical(z), err)
	}
	again, err := app.AppCodec().Marshal(z)
	if err != nil || !bytes.Equal(again, bz) {
		rt.Fatalf("encoded as %x and as %x", bz, again)
	}
}

func kindOfMessage(name string) string {
	name = strings.TrimPrefix(name, "defund.dex.")
	switch {
	case strings.HasPrefix(name, "Query"):
		return "queries"
	case strings.HasPrefix(name, "Msg"):
		return "messages"
	case strings.HasPrefix(name, "Event"):
		return "events"
	}
	return "records"
}

// recordFuncs checks the functions which encode records for the store.
func recordFuncs(rt *rapid.T, cdc codec.BinaryCodec, x gogoproto.Message, bz []byte, text string) {
	var enc []byte
	var dec, dec2 gogoproto.Message
	var err error
	switch r := x.(type) {
	case *types.Pair:
		enc = types.MustMarshalPair(cdc, *r)
		a := types.MustUnmarshalPair(cdc, enc)
		b, e := types.UnmarshalPair(cdc, enc)
		dec, dec2, err = &a, &b, e
	case *types.Pool:
		enc = types.MustMarshalPool(cdc, *r)
		a := types.MustUnmarshalPool(cdc, enc)
		b, e := types.UnmarshalPool(cdc, enc)
		dec, dec2, err = &a, &b, e
	case *types.DepositRequest:
		enc = types.MustMarshalDepositRequest(cdc, *r)
		a := types.MustUnmarshalDepositRequest(cdc, enc)
		b, e := types.UnmarshalDepositRequest(cdc, enc)
		dec, dec2, err = &a, &b, e
	case *types.WithdrawRequest:
		enc = types.MustMarshaWithdrawRequest(cdc, *r)
		a := types.MustUnmarshalWithdrawRequest(cdc, enc)
		b, e := types.UnmarshalWithdrawRequest(cdc, enc)
		dec, dec2, err = &a, &b, e
	case *types.Order:
		enc = types.MustMarshaOrder(cdc, *r)
		a := types.MustUnmarshalOrder(cdc, enc)
		b, e := types.UnmarshalOrder(cdc, enc)
		dec, dec2, err = &a, &b, e
	default:
		return
	}
	if err != nil || !bytes.Equal(enc, bz) || canonical(dec) != text || canonical(dec2) != text {
		rt.Fatalf("the record is stored as %x (%v), read as %s and %s", enc, err, canonical(dec), canonical(dec2))
	}
}

var _ = big.NewInt
