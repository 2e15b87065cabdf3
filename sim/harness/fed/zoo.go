//go:build simruntime

package fed

import (
	"context"
	"fmt"
	"log/slog"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"verif.local/harness/gen/zb"
	"verif.local/harness/gen/zoo"
	"verif.local/harness/wk"
	"verif.local/sim/prog"
	"verif.local/sim/simrt"
)

// ZooReq is one request to the handwritten service of proto/zoo.proto. Its
// values are drawn from Seed.
type ZooReq struct {
	ID     int           `json:"id"`
	Method string        `json:"method"`
	Seed   uint64        `json:"seed"`
	Start  time.Duration `json:"start,omitempty"`
}

func zooPlan(prop string, g *prog.PRNG) *Plan {
	pl := &Plan{Seed: g.U64() >> 1}
	if prop != "C03" && g.P(1, 3) {
		pl.Rates.Fail = 60
	}
	pl.Rates.Burst = []int{0, 300, 1000}[g.Intn(3)]
	ms := []string{"Alias", "Calc", "Parts", "Mix", "Alias", "Calc", "Parts", "Mix", "Mix", "Touch"}
	at := time.Duration(0)
	for ph, id := 0, 0; ph < 1+g.Intn(4); ph++ {
		one := ""
		if g.P(1, 2) {
			one = ms[g.Intn(len(ms))]
		}
		for n := 1 + g.Intn(6); n > 0; n-- {
			r := ZooReq{ID: id, Method: ms[g.Intn(len(ms))], Seed: g.U64() >> 1, Start: at}
			if one != "" {
				r.Method = one
			}
			if g.P(1, 3) {
				at += time.Duration(g.Intn(100_000_000))
			}
			pl.Zoo = append(pl.Zoo, r)
			id++
		}
		at += 3 * time.Minute
	}
	pl.Stalls = g.P(1, 8)
	return pl
}

// ---- the values

type zooGen struct{ *prog.PRNG }

var zooStrs = []string{"", "a", "b", "ab", "Zed", "äöü", "日本", "x y", "'q'", "a\\b", "-"}

func (g zooGen) str() string { return zooStrs[g.Intn(len(zooStrs))] }
func (g zooGen) i64() int64 {
	switch g.Intn(8) {
	case 0:
		return 0
	case 1:
		return -int64(g.Intn(1000))
	case 2:
		return int64(g.U64() >> 2) // beyond 32 bits
	}
	return int64(g.Intn(100))
}
func (g zooGen) words() (out []string) {
	for n := g.Intn(4); n > 0; n-- {
		out = append(out, g.str())
	}
	return
}
func (g zooGen) f64() float64 {
	return []float64{0, 1, -1, 0.5, 3.25, 1e300, -2.5e-10}[g.Intn(7)]
}
func (g zooGen) ts() *timestamppb.Timestamp {
	return &timestamppb.Timestamp{Seconds: int64(g.Intn(4_000_000_000)), Nanos: int32(g.Intn(2)) * int32(g.Intn(1_000_000_000))}
}

func (g zooGen) part(id string) *zb.Part {
	p := &zb.Part{Id: id, N: int64(g.Intn(100)), Shade: []zb.Shade{0, 1, 2, 5}[g.Intn(4)]}
	if g.P(2, 3) {
		p.Pin = &zb.Part_Pin{Name: g.str(), Pos: uint32(g.Intn(9))}
	}
	return p
}

func (g zooGen) parts() (out []*zb.Part) {
	for i, n := 0, g.Intn(4); i < n; i++ {
		out = append(out, g.part(fmt.Sprint("p", i)))
	}
	return
}

// item is what the backend stores under an id.
func (p *Plan) zooItem(id, why string) *zb.Item {
	g := zooGen{p.prng("zoo item", id, why)}
	it := &zb.Item{
		Id: id, I32: int32(g.i64()), I64: g.i64(), U32: uint32(g.U64()), U64: g.U64(), F32: float32(g.f64()), F64: g.f64() / 4, On: g.P(1, 2),
		Raw: []byte(g.str()), Shade: []zb.Shade{0, 1, 2, 5}[g.Intn(4)], Parts: g.parts(), Words: g.words(), S32: int32(g.i64()), Fx: g.U64(),
	}
	if g.P(1, 4) {
		it.Raw = []byte{0, 255, 128, byte(g.Intn(256))}
	}
	if why == "some" && it.Shade == 5 {
		it.Shade = 2
	}
	for n := g.Intn(3); n > 0; n-- {
		it.Nums = append(it.Nums, int32(g.i64()))
		it.Shades = append(it.Shades, zb.Shade(g.Intn(3)))
	}
	if g.P(2, 3) {
		it.At = g.ts()
	}
	if g.P(2, 3) {
		it.Took = &durationpb.Duration{Seconds: int64(g.Intn(100000)), Nanos: int32(g.Intn(1_000_000_000))}
	}
	if g.P(1, 2) {
		it.Maybe = wrapperspb.Int64(g.i64())
	}
	if g.P(1, 2) {
		it.Text = wrapperspb.String(g.str())
	}
	if g.P(1, 2) {
		it.Part = g.part("one")
	}
	for n := g.Intn(4); n > 0; n-- {
		if it.Counts == nil {
			it.Counts, it.Names = map[string]int64{}, map[int32]string{}
		}
		it.Counts[g.str()] = g.i64()
		it.Names[int32(g.i64())] = g.str()
	}
	switch g.Intn(4) {
	case 0:
		it.Sel = &zb.Item_Word{Word: g.str()}
	case 1:
		it.Sel = &zb.Item_Number{Number: g.i64()}
	case 2:
		it.Sel = &zb.Item_Piece{Piece: g.part("piece")}
	}
	return it
}

func (p *Plan) zooNew(id string) *zb.GetNewResponse {
	g := zooGen{p.prng("zoo new", id)}
	r := &zb.GetNewResponse{Tone: []zb.Tone{0, 3, 4, 9}[g.Intn(4)], Shade: []zb.Shade{0, 1, 2, 5}[g.Intn(4)]}
	if g.P(3, 4) {
		r.New = &zb.NewPart{Id: g.str(), N: g.i64(), Shade: []zb.Tone{0, 3, 4, 9}[g.Intn(4)], Extra: g.str()}
		if g.P(1, 2) {
			r.New.Pin = &zb.NewPart_Pin{Name: g.str(), Pos: uint32(g.Intn(5))}
		}
	}
	if g.P(3, 4) {
		r.Old = g.part("old")
	}
	r.Choice = &zb.Choice{Name: g.str()}
	switch g.Intn(5) {
	case 0:
		r.Choice.C = &zb.Choice_Word{Word: g.str()}
	case 1:
		r.Choice.C = &zb.Choice_Number{Number: g.i64()}
	case 2:
		r.Choice.C = &zb.Choice_Piece{Piece: g.part("chosen")}
	case 3:
		r.Choice.C = &zb.Choice_Shade{Shade: []zb.Shade{0, 1, 2, 5}[g.Intn(4)]}
	}
	return r
}

func (p *Plan) zooList(req *zb.ListPartsRequest) *zb.ListPartsResponse {
	g := zooGen{p.prng("zoo list", req.GetId())}
	return &zb.ListPartsResponse{Parts: g.parts(), Next: g.str()}
}

// zooAsk draws the request message.
func (p *Plan) zooAsk(r ZooReq) proto.Message {
	g := zooGen{p.prng("zoo ask", fmt.Sprint(r.Seed))}
	id := fmt.Sprintf("z%d:%x", r.ID, g.Intn(4096))
	switch r.Method {
	case "Alias":
		return &zoo.AliasRequest{Id: id}
	case "Calc":
		q := &zoo.CalcRequest{A: g.i64(), B: g.i64(), S: id + g.str(), Words: g.words(), F: g.f64(), U: g.U64() >> 1, At: g.ts()}
		for n := g.Intn(6); n > 0; n-- {
			q.Nums = append(q.Nums, int64(g.Intn(20)-5))
		}
		if g.P(1, 2) {
			q.Opt = proto.String(g.str())
		}
		if g.P(3, 4) {
			q.Made = &zoo.Made{Id: g.str(), N: int64(g.Intn(50)), Words: g.words()}
			if g.P(1, 2) {
				q.Made.Inner = &zoo.Made_Inner{On: g.P(1, 2)}
			}
		}
		for n := g.Intn(3); n > 0; n-- {
			if q.M == nil {
				q.M = map[string]int64{}
			}
			q.M[[]string{"k", "l", "m"}[g.Intn(3)]] = g.i64()
		}
		return q
	case "Parts":
		q := &zoo.PartsRequest{Id: id, Limit: int32(g.Intn(10)), Shade: zoo.Shade(g.Intn(3)), Tags: g.words(), Seed: g.U64(), Ratio: float32(g.f64() / 8), Size: g.i64()}
		switch g.Intn(3) {
		case 0:
			q.Order = &zoo.PartsRequest_By{By: g.str()}
		case 1:
			q.Order = &zoo.PartsRequest_At{At: g.i64()}
		}
		for n := g.Intn(3); n > 0; n-- {
			if q.Weights == nil {
				q.Weights = map[string]int64{}
			}
			q.Weights[g.str()] = g.i64()
		}
		return q
	}
	if r.Method == "Mix" {
		q := &zoo.MixRequest{Id: id, Old: g.P(1, 2), K: int64(g.Intn(80)), Words: g.words()}
		switch g.Intn(3) {
		case 0:
			q.Cond = &zoo.MixRequest_A{A: &zoo.MixRequest_CondA{Prop: g.str()}}
		case 1:
			q.Cond = &zoo.MixRequest_CondB_{CondB: &zoo.MixRequest_CondB{Size: g.i64()}}
		}
		return q
	}
	return &zoo.TouchRequest{Id: id}
}

// ---- the reference

type zooWant struct {
	calls map[string]proto.Message // by key: the request
	resp  proto.Message
	fails bool // the request fails by itself
}

func (p *Plan) zooModel(m proto.Message) *zooWant {
	w := &zooWant{calls: map[string]proto.Message{}}
	call := func(q interface {
		proto.Message
		GetId() string
	}) {
		w.calls[zooKey(q)] = q
	}
	switch q := m.(type) {
	case *zoo.AliasRequest:
		fq := &zb.GetItemRequest{Id: q.Id, Why: "full"}
		sq := &zb.GetItemRequest{Id: q.Id + "/some", Why: "some"}
		call(fq)
		call(sq)
		it := p.zooItem(fq.Id, fq.Why)
		full := &zoo.Full{
			Id: it.Id, I32: it.I32, I64: it.I64, U32: it.U32, U64: it.U64, F32: it.F32, F64: it.F64, On: it.On, Raw: it.Raw, At: it.At, Took: it.Took,
			Maybe: it.Maybe, Text: it.Text, Shade: zooShade(it.Shade), Part: zooPart(it.Part), Counts: it.Counts, Names: it.Names, Nums: it.Nums,
			Words: it.Words, S32: it.S32, Fx: it.Fx, Piece: zooPart(it.GetPiece()),
		}
		for _, x := range it.Parts {
			full.Parts = append(full.Parts, zooPart(x))
		}
		it = p.zooItem(sq.Id, sq.Why)
		some := &zoo.Some{
			I32: int64(it.I32), I64: int32(it.I64), U32: uint64(it.U32), Sum: it.I64 + int64(it.U32) + it.Part.GetN(), Ratio: it.F64 * 2,
			Shade: zoo.Shade(it.Shade), Word: "no", Number: -1, Piece: zooPart(it.GetPiece()), On: it.On, At: it.At, Took: it.Took,
			Counts: it.Counts, Raw: it.Raw,
			Made: &zoo.Made{Id: it.Id, N: it.I64, Words: it.Words, Inner: &zoo.Made_Inner{On: it.On}},
		}
		if it.I64 < math.MinInt32 || it.I64 > math.MaxInt32 {
			w.fails = true // does not fit the field
		}
		for _, x := range it.Parts {
			some.Ns = append(some.Ns, x.N)
		}
		switch x := it.Sel.(type) {
		case *zb.Item_Word:
			some.Word = x.Word
		case *zb.Item_Number:
			some.Number = x.Number
		}
		// an expression reading a message that is not set gets an empty one
		if some.Piece == nil {
			some.Piece = &zoo.Part{}
		}
		if some.At == nil {
			some.At = &timestamppb.Timestamp{}
		}
		if some.Took == nil {
			some.Took = &durationpb.Duration{}
		}
		if len(it.Words) > 0 {
			some.First = it.Words[0]
		}
		w.resp = &zoo.AliasResponse{Full: full, Some: some}
	case *zoo.CalcRequest:
		big := max(q.A, q.B)
		eq := &zb.EchoRequest{Id: q.S, S: fmt.Sprint(big) + q.S}
		call(eq)
		r := &zoo.CalcResponse{
			Big: big, Upper: strings.ToUpper(q.S), Joined: strings.Join(q.Words, "-"), Opt: "unset", Mk: -1, Half: q.F / 2, More: q.U + 1,
			Echo: zooEcho(eq), Found: -1, At: timestamppb.New(q.At.AsTime().Add(90 * time.Second)), Minute: int64(q.At.AsTime().Minute()),
		}
		r.Sorted = append(r.Sorted, q.Nums...)
		sort.SliceStable(r.Sorted, func(i, j int) bool { return r.Sorted[i] < r.Sorted[j] })
		r.Desc = append(r.Desc, q.Words...)
		sort.SliceStable(r.Desc, func(i, j int) bool { return r.Desc[i] > r.Desc[j] })
		all := true
		for _, v := range q.Nums {
			if v%2 == 0 {
				r.Evens = append(r.Evens, v)
			}
			r.Total += v
			all = all && v > 0
		}
		if n := len(r.Sorted); n > 0 {
			r.Found = r.Sorted[n-1]
		}
		// an argument has a value if it is not the zero value
		if q.GetOpt() != "" {
			r.Opt = *q.Opt
		}
		if v, ok := q.M["k"]; ok {
			r.Mk = v
		}
		r.Any = all
		for _, x := range q.Words {
			r.Any = r.Any || strings.HasPrefix(x, "a")
		}
		r.Inl = &zoo.Inl{Id: q.Made.GetId() + "!", N: q.Made.GetN() + big, Words: q.Made.GetWords(), On: q.Made.GetInner().GetOn()}
		if s := q.Made.GetN(); s > 0 && big > math.MaxInt64-s {
			w.fails = true
		}
		w.resp = r
	case *zoo.PartsRequest:
		lq := &zb.ListPartsRequest{Id: q.Id, Limit: q.Limit, Shade: zb.Shade_DARK, Tags: q.Tags, Pager: &zb.Pager{Token: q.Id, Size: q.Size},
			Weights: q.Weights, Seed: q.Seed, Ratio: q.Ratio}
		if q.Limit > 5 {
			lq.Shade = zb.Shade_LIGHT
		}
		switch x := q.Order.(type) {
		case *zoo.PartsRequest_By:
			if x.By != "" {
				lq.Order = &zb.ListPartsRequest_By{By: x.By}
			}
		case *zoo.PartsRequest_At:
			if x.At != 0 {
				lq.Order = &zb.ListPartsRequest_At{At: x.At}
			}
		}
		call(lq)
		l := p.zooList(lq)
		r := &zoo.PartsResponse{Next: l.Next, Kind: zoo.Shade_HEAVY}
		if len(l.Parts) > 2 {
			r.Kind = zoo.Shade_SOFT
		}
		for i, x := range l.Parts {
			r.Ids = append(r.Ids, fmt.Sprintf("%s/%d", x.Id, x.N))
			sh := zoo.Shade_SOFT
			if x.N > 50 {
				sh = zoo.Shade_HEAVY
			}
			r.Shades = append(r.Shades, sh)
			eq := &zb.EchoRequest{Id: q.Id + "/" + x.Id, S: x.Id}
			call(eq)
			r.Views = append(r.Views, &zoo.View{S: zooEcho(eq), N: x.N * 2, Pin: x.GetPin().GetName()})
			r.Parts = append(r.Parts, zooPart(x))
			if i == 0 {
				r.Top = zooPart(x)
			}
		}
		w.resp = r
	case *zoo.MixRequest:
		nq := &zb.GetNewRequest{Id: q.Id}
		if x := q.GetA(); x != nil {
			nq.A = &zb.CondA{Prop: x.Prop}
		}
		if x := q.GetCondB(); x != nil {
			nq.B = &zb.CondB{Size: x.Size}
		}
		call(nq)
		n := p.zooNew(q.Id)
		r := &zoo.MixResponse{
			New: &zoo.Both{}, Old: &zoo.Both{}, Choice: &zoo.Choice{Name: n.Choice.Name}, Sel: zooTone(n.Tone),
			Die: int64(rand.New(rand.NewSource(q.K)).Intn(1000000)), Flat: []int64{1, 2, 3}, Table: map[int64]string{1: "a", 2: q.Id},
			Day: time.Date(2023, 12, 25, 12, 10, 5, 0, time.UTC).Unix(), Twice: 14 + q.K, Base: &zoo.Base{Label: "zed!", N: 3},
			Wait: durationpb.New(3 * time.Second), List: append([]string{"a", "b", "c"}, q.Words...), Dv: wrapperspb.Double(1.5), Sv: wrapperspb.String(q.Id),
			Pick: q.K + 1, Sub: "23" + q.Id, Named: zoo.Mixed_MIXED_BRIGHT, Label: "MIXED_DARK",
			FlatChoice: &zoo.Flat{Name: n.Choice.Name, Word: n.Choice.GetWord(), Portion: zooPart(n.Choice.GetPiece()), Tint: zooShade(n.Choice.GetShade())},
		}
		if n.New != nil {
			r.New = &zoo.Both{Id: n.New.Id, N: n.New.N, Shade: zooTone(n.New.Shade), Again: n.New.Id}
			if n.New.Pin != nil {
				r.New.Pin = &zoo.BothPin{Name: n.New.Pin.Name, Pos: n.New.Pin.Pos}
			}
		}
		if n.Old != nil {
			r.Old = &zoo.Both{Id: n.Old.Id, N: n.Old.N, Shade: zooMixed(n.Old.Shade), Again: n.Old.Id}
			if n.Old.Pin != nil {
				r.Old.Pin = &zoo.BothPin{Name: n.Old.Pin.Name, Pos: n.Old.Pin.Pos}
			}
		}
		switch x := n.Choice.C.(type) {
		case *zb.Choice_Word:
			r.Choice.C = &zoo.Choice_Word{Word: x.Word}
		case *zb.Choice_Number:
			r.Choice.C = &zoo.Choice_Number{Number: x.Number}
		case *zb.Choice_Piece:
			r.Choice.C = &zoo.Choice_Piece{Piece: zooPart(x.Piece)}
		case *zb.Choice_Shade:
			r.Choice.C = &zoo.Choice_Shade{Shade: zooShade(x.Shade)}
		}
		if q.Old {
			r.Sel = zooMixed(n.Shade)
		}
		r.Seld = r.Sel
		if q.K > 20 {
			r.Pick = q.K
		}
		if q.K > 50 {
			r.Pick += (q.K - 50) * 2
		}
		pid := q.Id + "/other"
		switch q.K % 3 {
		case 0:
			pid = q.Id + "/one"
		case 1:
			eq := &zb.EchoRequest{Id: q.Id + "/two", S: "two"}
			call(eq)
			pid = zooEcho(eq)
		}
		r.Got, r.Gotid = &zoo.Picked{Id: pid}, pid+pid
		r.Text, r.Long = "soft one", "none"
		if q.K > 30 {
			r.Text = "heavy one"
		}
		r.Sized = append(r.Sized, q.Words...)
		r.Down = append(r.Down, q.Words...)
		sort.SliceStable(r.Sized, func(i, j int) bool { return utf8.RuneCountInString(r.Sized[i]) < utf8.RuneCountInString(r.Sized[j]) })
		sort.SliceStable(r.Down, func(i, j int) bool { return utf8.RuneCountInString(r.Down[i]) > utf8.RuneCountInString(r.Down[j]) })
		for _, x := range q.Words {
			if utf8.RuneCountInString(x) > 1 {
				r.Long = x
				break
			}
		}
		switch {
		case q.K > 40:
			r.Which = &zoo.MixResponse_Hi{Hi: "hi " + q.Id}
		case q.K < 10:
			eq := &zb.EchoRequest{Id: q.Id + "/lo", S: "lo"}
			call(eq)
			r.Which = &zoo.MixResponse_Lo{Lo: q.K + int64(utf8.RuneCountInString(zooEcho(eq)))}
		default:
			r.Which = &zoo.MixResponse_Mid{Mid: &zoo.Made{Id: q.Id}}
		}
		w.resp = r
	case *zoo.TouchRequest:
		call(&zb.EchoRequest{Id: q.Id, S: "touch"})
		w.resp = &emptypb.Empty{}
	}
	return w
}

func zooEcho(q *zb.EchoRequest) string { return "<" + q.Id + ":" + q.S + ">" }

func zooShade(s zb.Shade) zoo.Shade {
	switch s {
	case zb.Shade_DARK:
		return zoo.Shade_HEAVY
	case zb.Shade_LIGHT, zb.Shade_PALE:
		return zoo.Shade_SOFT
	}
	return zoo.Shade_UNKNOWN
}

func zooMixed(s zb.Shade) zoo.Mixed {
	switch s {
	case zb.Shade_DARK:
		return zoo.Mixed_MIXED_DARK
	case zb.Shade_LIGHT, zb.Shade_PALE:
		return zoo.Mixed_MIXED_BRIGHT
	}
	return zoo.Mixed_MIXED_UNKNOWN
}

func zooTone(s zb.Tone) zoo.Mixed {
	switch s {
	case zb.Tone_TONE_LOW:
		return zoo.Mixed_MIXED_DARK
	case zb.Tone_TONE_HIGH:
		return zoo.Mixed_MIXED_BRIGHT
	}
	return zoo.Mixed_MIXED_UNKNOWN
}

func zooPart(p *zb.Part) *zoo.Part {
	if p == nil {
		return nil
	}
	r := &zoo.Part{Id: p.Id, Count: p.N, Shade: zooShade(p.Shade)}
	if p.Pin != nil {
		r.Pin = &zoo.Part_Pin{Name: p.Pin.Name, Pos: p.Pin.Pos}
	}
	return r
}

// zooKey names a call; the id begins with the request's.
func zooKey(m interface {
	proto.Message
	GetId() string
}) string {
	why := ""
	if g, ok := m.(*zb.GetItemRequest); ok {
		why = g.Why
	}
	return string(m.ProtoReflect().Descriptor().Name()) + " " + m.GetId() + " " + why
}

// ---- the world

type zooCall struct {
	rid, key string
	req      proto.Message
	failed   bool
	code     int
	msg      string
	start    time.Duration
}

type zooWorld struct {
	plan  *Plan
	race  bool
	calls []*zooCall
	fired map[string]int
	t0    time.Time
}

func (w *zooWorld) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "no streams")
}

func (w *zooWorld) Zb_StoreClient(zoo.ZooClientConfig) (zb.StoreClient, error) {
	return zb.NewStoreClient(grpc.ClientConnInterface(w)), nil
}

func (w *zooWorld) Invoke(ctx context.Context, method string, args, rep any, _ ...grpc.CallOption) error {
	if err := ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	m := args.(interface {
		proto.Message
		GetId() string
	})
	rid, _ := ctx.Value(ridKey{}).(string)
	c := &zooCall{key: zooKey(m), rid: rid}
	g := w.plan.prng("zoo call", c.key)
	lat := latency(g, w.plan.Rates)
	if w.plan.ZeroLat {
		lat = 0
	}
	if g.Intn(1000) < w.plan.Rates.Fail && !w.plan.suppressed(c.key) {
		c.failed, c.code, c.msg = true, failCodes[g.Intn(len(failCodes))], "zfail:"+c.key
	}
	if !w.race {
		c.req = proto.Clone(m)
		c.start = simrt.Now()
		w.calls = append(w.calls, c)
		simrt.Event("zoo call %s", c.key)
	}
	if lat > 0 {
		select {
		case <-time.After(lat):
		case <-ctx.Done():
			return status.FromContextError(ctx.Err()).Err()
		}
	} else {
		simrt.Yield()
	}
	if c.failed {
		if !w.race {
			w.fired["downstream error"]++
		}
		return status.Error(codes.Code(c.code), c.msg)
	}
	var out proto.Message
	switch q := m.(type) {
	case *zb.GetItemRequest:
		out = &zb.GetItemResponse{Item: w.plan.zooItem(q.Id, q.Why)}
	case *zb.GetNewRequest:
		out = w.plan.zooNew(q.Id)
	case *zb.ListPartsRequest:
		out = w.plan.zooList(q)
	case *zb.EchoRequest:
		out = &zb.EchoResponse{S: zooEcho(q)}
	}
	// over the wire
	b, err := proto.Marshal(out)
	if err != nil {
		return err
	}
	return proto.Unmarshal(b, rep.(proto.Message))
}

type zooResult struct {
	ask  proto.Message
	resp proto.Message
	err  error
	done bool
	at   time.Duration
	end  time.Duration
}

func runZoo(plan *Plan, opt simrt.Options) *wk.Outcome {
	plan.sup = nil
	w := &zooWorld{plan: plan, fired: map[string]int{}, race: raceEnabled}
	results := make([]*zooResult, len(plan.Zoo))
	opt.Stalls = plan.Stalls
	opt.Horizon = 10 * time.Minute
	for i, r := range plan.Zoo {
		opt.Horizon = max(opt.Horizon, r.Start+10*time.Minute)
		results[i] = &zooResult{ask: plan.zooAsk(r)}
	}
	methods := map[string]grpc.MethodDesc{}
	for _, m := range zoo.Zoo_ServiceDesc.Methods {
		methods[m.MethodName] = m
	}
	var newErr error
	res := simrt.Run(opt, func() {
		var svc *zoo.Zoo
		w.t0 = time.Now()
		simrt.NoYield(func() {
			svc, newErr = zoo.NewZoo(zoo.ZooConfig{Client: w, Logger: slog.New(slog.DiscardHandler),
				ErrorHandler: grpcfed.ErrorHandler(func(_ context.Context, _ string, err error) error { return err })})
		})
		if newErr != nil {
			return
		}
		done := make(chan int, len(plan.Zoo))
		for i, r := range plan.Zoo {
			go func() {
				time.Sleep(r.Start)
				out := results[i]
				out.at = simrt.Now()
				ctx := context.WithValue(context.Background(), ridKey{}, fmt.Sprint("z", r.ID))
				if !w.race {
					simrt.Event("zoo request z%d %s", r.ID, r.Method)
				}
				resp, err := methods[r.Method].Handler(svc, ctx, func(in any) error {
					proto.Merge(in.(proto.Message), out.ask)
					return nil
				}, nil)
				out.done = true
				out.end = simrt.Now()
				if !w.race {
					simrt.Event("zoo done z%d %v", r.ID, err)
				}
				if err != nil {
					out.err = err
				} else {
					out.resp = resp.(proto.Message)
				}
				done <- i
			}()
		}
		for range plan.Zoo {
			<-done
		}
		zoo.CleanupZoo(context.Background(), svc)
	})
	o := &wk.Outcome{Res: res, Faults: w.fired, Reach: map[string]int{}}
	if newErr != nil {
		o.Err = "service creation failed: " + newErr.Error()
		return o
	}
	if res.Stalls > 0 {
		w.fired["goroutine stall"] += res.Stalls
	}
	if raceEnabled {
		return o
	}
	w.check(o, results)
	return o
}

func (w *zooWorld) check(o *wk.Outcome, results []*zooResult) {
	by := map[string][]*zooCall{}
	for _, c := range w.calls {
		by[c.rid] = append(by[c.rid], c)
	}
	total := 0
	for i, r := range w.plan.Zoo {
		res := results[i]
		rid := fmt.Sprint("z", r.ID)
		if !res.done {
			o.Add("zoo-unanswered", fmt.Sprintf("request %s %s was not answered", rid, r.Method), "C05", "C09", "C10")
			continue
		}
		want := w.plan.zooModel(res.ask)
		calls := by[rid]
		total += len(calls)
		var failed []*zooCall
		seen := map[string]int{}
		for _, c := range calls {
			o.Checks++
			seen[c.key]++
			if c.failed {
				failed = append(failed, c)
			}
			q, ok := want.calls[c.key]
			switch {
			case !ok:
				o.Add("zoo-call", fmt.Sprintf("request %s made the call %s (%s) which its definitions do not ask for", rid, c.key, short(c.req)), "C03", "C01", "C10")
			case seen[c.key] > 1:
				o.Add("zoo-call-twice", fmt.Sprintf("request %s made the call %s %d times", rid, c.key, seen[c.key]), "C01", "C10")
			case !proto.Equal(q, c.req):
				o.Add("zoo-call-request", fmt.Sprintf("call %s sent\n%s\nwant\n%s", c.key, short(c.req), short(q)), "C03", "C10")
			case (r.Method == "Alias" || r.Method == "Touch") && c.start != res.at && !w.plan.Stalls:
				o.Add("zoo-call-late", fmt.Sprintf("call %s depends on nothing but started %v after the request", c.key, c.start-res.at), "C01", "C04")
			}
		}
		o.Checks++
		switch {
		case len(failed) > 0:
			st, ok := status.FromError(res.err)
			found := false
			for _, c := range failed {
				found = found || ok && int(st.Code()) == c.code && st.Message() == c.msg
			}
			if res.err == nil || !found && !want.fails {
				o.Add("zoo-error", fmt.Sprintf("request %s ended with %v although %d of its calls failed, e.g. code %d %q", rid, res.err, len(failed), failed[0].code, failed[0].msg), "C07", "C03")
			}
		case want.fails:
			if res.err == nil {
				o.Add("zoo-no-error", fmt.Sprintf("request %s answered although a value does not fit: %s", rid, short(res.resp)), "C03", "C15")
			}
		case res.err != nil:
			o.Add("zoo-failed", fmt.Sprintf("request %s %s (%s) failed: %v", rid, r.Method, short(res.ask), res.err), "C03", "C10")
		default:
			for k := range want.calls {
				if seen[k] == 0 {
					o.Add("zoo-call-missing", fmt.Sprintf("request %s was answered without the call %s", rid, k), "C01", "C03")
				}
			}
			if m, ok := res.resp.(*zoo.MixResponse); ok {
				// the clock is read once per request, and once for all when the service starts
				o.Checks++
				if d := time.Unix(0, m.Now).Sub(w.t0); d < res.at || d > res.end {
					o.Add("zoo-clock", fmt.Sprintf("request %s lasted from %v to %v but saw the time %v", rid, res.at, res.end, d), "C03")
				}
				if d := m.Born - w.t0.Unix(); d != 0 {
					o.Add("zoo-born", fmt.Sprintf("request %s saw the service variable made %ds after the service started", rid, d), "C15", "C10")
				}
				x := want.resp.(*zoo.MixResponse)
				x.Now, x.Born = m.Now, m.Born
			}
			if !proto.Equal(want.resp, res.resp) {
				o.Add("zoo-response", fmt.Sprintf("request %s %s (%s) answered\n%s\nwant\n%s", rid, r.Method, short(res.ask), short(res.resp), short(want.resp)), "C03", "C10")
			}
		}
		o.Reach["zoo "+r.Method]++
	}
	o.Checks++
	if total != len(w.calls) {
		o.Add("zoo-stray", "calls were made without the context of their request", "C10", "C08")
	}
}

func short(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	s := prototext.MarshalOptions{}.Format(m)
	// the text format varies its spaces on purpose
	s = strings.ReplaceAll(s, "  ", " ")
	if len(s) > 3000 {
		s = s[:3000]
		for !utf8.ValidString(s) {
			s = s[:len(s)-1]
		}
	}
	return s
}
