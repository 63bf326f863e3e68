package zverif

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"pgregory.net/rapid"

	"defund/x/dex/types"
)

// kid draws an id; the bytes of ids are likely to look like those of other parts of keys.
func kid(rt *rapid.T, label string) uint64 {
	switch uni(rt, 0, 4, label+" kind") {
	case 0:
		return uint64(uni(rt, 1, 4, label))
	case 1:
		return 1<<uint(uni(rt, 0, 63, label)) + uint64(uni(rt, 0, 1, label+"+"))
	case 2:
		return 1<<64 - 1 - uint64(uni(rt, 0, 2, label))
	case 3: // few different bytes
		x := uint64(0)
		for i := 0; i < 8; i++ {
			x = x<<8 | uint64(pick(rt, []int64{0, 0, 1, 8, 20, 'a', 0xb0, 0xb3, 255}, label+" byte"))
		}
		return max(x, 1)
	}
	return uint64(uni(rt, 1, 1<<62, label))
}

// kaddrs draws addresses which are easily confused.
func kaddrs(rt *rapid.T) (out []sdk.AccAddress) {
	seen := map[string]bool{}
	put := func(a []byte) {
		if len(a) > 0 && len(a) <= 255 && !seen[string(a)] {
			seen[string(a)] = true
			out = append(out, append([]byte{}, a...))
		}
	}
	for i, n := 0, int(uni(rt, 1, 3, "addresses")); i < n; i++ {
		l := int(pick(rt, []int64{1, 2, 8, 16, 19, 20, 20, 21, 32, 32, 254, 255, uni(rt, 1, 255, "length")}, "length"))
		a := make([]byte, l)
		mode := uni(rt, 0, 2, "bytes")
		for j := range a {
			switch mode {
			case 0:
				a[j] = byte(uni(rt, 0, 255, "byte"))
			case 1:
				a[j] = byte(l)
			default:
				a[j] = byte(pick(rt, []int64{0, 1, 8, 20, 32, 255}, "byte"))
			}
		}
		put(a)
		put(append(append([]byte{}, a...), byte(uni(rt, 0, 255, "extra"))))
		put(a[:len(a)-1])
		put(append([]byte{byte(l)}, a...))
		b := append([]byte{}, a...)
		b[len(b)-1]++
		put(b)
		b = append([]byte{}, a...)
		b[0] ^= 1
		put(b)
	}
	return
}

// kdenoms draws denoms which are easily confused; a denom's length byte may look like a letter.
func kdenoms(rt *rapid.T) (out []string) {
	seen := map[string]bool{}
	put := func(d string) {
		if sdk.ValidateDenom(d) == nil && !seen[d] {
			seen[d] = true
			out = append(out, d)
		}
	}
	const letters = "aAbpo/0-._:zZ9d"
	for i, n := 0, int(uni(rt, 1, 3, "denoms")); i < n; i++ {
		l := int(pick(rt, []int64{3, 4, 8, 64, 65, 97, 98, 112, 127, 128, uni(rt, 3, 128, "length")}, "length"))
		var b strings.Builder
		mode := rapid.Bool().Draw(rt, "repeat")
		for j := 0; j < l; j++ {
			k := uni(rt, 0, int64(len(letters)-1), "letter")
			if j == 0 || mode {
				k = k % 2
			}
			b.WriteByte(letters[k])
		}
		d := b.String()
		put(d)
		put(d + "a")
		put(d[:len(d)-1])
		put("a" + d)
		put(d[1:])
		put(string(rune(len(d))) + d)
		put(d + string(rune(len(d))) + d)
	}
	put("aaa")
	put("aab")
	return
}

type kEntry struct {
	key  []byte
	copy []byte
	kind string
	of   []interface{} // the parts, in the order of the key
}

func TestC25(t *testing.T) {
	prop(t, "keys", 6000, func(rt *rapid.T, c *Case) {
		addrs := kaddrs(rt)
		denoms := kdenoms(rt)
		ids := map[uint64]bool{}
		for i, n := 0, int(uni(rt, 2, 5, "ids")); i < n; i++ {
			x := kid(rt, "id")
			ids[x] = true
			if rapid.Bool().Draw(rt, "neighbour") && x > 1 {
				ids[x-1] = true
			}
		}
		var is []uint64
		for x := range ids {
			is = append(is, x)
		}
		sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
		c.Logf("ids %v\nlengths of addresses %v\ndenoms %q", is, lens(addrs), denoms)
		var all []kEntry
		put := func(kind string, key []byte, of ...interface{}) {
			all = append(all, kEntry{key, append([]byte{}, key...), kind, of})
		}
		type lookup struct {
			kind   string
			prefix []byte
			of     []interface{}
		}
		var lookups []lookup
		look := func(kind string, prefix []byte, of ...interface{}) {
			lookups = append(lookups, lookup{kind, append([]byte{}, prefix...), of})
		}
		put("last pair id", types.LastPairIdKey)
		put("last pool id", types.LastPoolIdKey)
		put("params", types.ParamsKey)
		look("pair", types.PairKeyPrefix)
		look("pool", types.PoolKeyPrefix)
		look("deposit", types.DepositRequestKeyPrefix)
		look("withdrawal", types.WithdrawRequestKeyPrefix)
		look("order", types.OrderKeyPrefix)
		look("mm", types.NumMMOrdersKeyPrefix)
		look("pair by denoms", types.PairIndexKeyPrefix)
		look("pairs by denoms", types.PairsByDenomsIndexKeyPrefix)
		look("pool by address", types.PoolByReserveAddressIndexKeyPrefix)
		look("pools by pair", types.PoolsByPairIndexKeyPrefix)
		look("deposits of", types.DepositRequestIndexKeyPrefix)
		look("withdrawals of", types.WithdrawRequestIndexKeyPrefix)
		look("orders of", types.OrderIndexKeyPrefix)
		for _, a := range is {
			put("pair", types.GetPairKey(a), a)
			put("pool", types.GetPoolKey(a), a)
			put("pool by address", types.GetPoolByReserveAddressIndexKey(types.PoolReserveAddress(a)), string(types.PoolReserveAddress(a)))
			look("pools by pair", types.GetPoolsByPairIndexKeyPrefix(a), a)
			look("order", types.GetOrdersByPairKeyPrefix(a), a)
			for _, b := range is {
				put("pools by pair", types.GetPoolsByPairIndexKey(a, b), a, b)
				put("deposit", types.GetDepositRequestKey(a, b), a, b)
				put("withdrawal", types.GetWithdrawRequestKey(a, b), a, b)
				put("order", types.GetOrderKey(a, b), a, b)
			}
		}
		for _, u := range addrs {
			look("deposits of", types.GetDepositRequestIndexKeyPrefix(u), string(u))
			look("withdrawals of", types.GetWithdrawRequestIndexKeyPrefix(u), string(u))
			look("orders of", types.GetOrderIndexKeyPrefix(u), string(u))
			put("pool by address", types.GetPoolByReserveAddressIndexKey(u), string(u))
			for _, a := range is {
				put("mm", types.GetNumMMOrdersKey(u, a), string(u), a)
				for _, b := range is {
					put("deposits of", types.GetDepositRequestIndexKey(u, a, b), string(u), a, b)
					put("withdrawals of", types.GetWithdrawRequestIndexKey(u, a, b), string(u), a, b)
					put("orders of", types.GetOrderIndexKey(u, a, b), string(u), a, b)
				}
			}
		}
		for i, d := range denoms {
			look("pairs by denoms", types.GetPairsByDenomIndexKeyPrefix(d), d)
			for j, e := range denoms {
				if i > 6 || j > 6 {
					continue
				}
				put("pair by denoms", types.GetPairIndexKey(d, e), d, e)
				look("pairs by denoms", types.GetPairsByDenomsIndexKeyPrefix(d, e), d, e)
				for k, a := range is {
					if k < 3 {
						put("pairs by denoms", types.GetPairsByDenomsIndexKey(d, e, a), d, e, a)
					}
				}
			}
		}
		for _, e := range all {
			if !bytes.Equal(e.key, e.copy) {
				rt.Fatalf("the key of %s %v changed from %x to %x", e.kind, e.of, e.copy, e.key)
			}
		}
		// distinct, and in the order of the ids
		sort.SliceStable(all, func(i, j int) bool { return bytes.Compare(all[i].key, all[j].key) < 0 })
		for i := 1; i < len(all); i++ {
			a, b := all[i-1], all[i]
			if bytes.Equal(a.key, b.key) {
				rt.Fatalf("%s %q and %s %q share the key %x", a.kind, a.of, b.kind, b.of, a.key)
			}
			if a.kind != b.kind || len(a.of) != len(b.of) {
				continue
			}
			k := 0
			for k < len(a.of) && a.of[k] == b.of[k] {
				k++
			}
			x, ok1 := a.of[k].(uint64)
			y, ok2 := b.of[k].(uint64)
			if ok1 && ok2 && x >= y {
				rt.Fatalf("keys of %s are out of order: %v before %v", a.kind, a.of, b.of)
			}
		}
		// lookups find theirs only
		n := 0
		for _, l := range lookups {
			end := storetypes.PrefixEndBytes(l.prefix)
			from := sort.Search(len(all), func(i int) bool { return bytes.Compare(all[i].key, l.prefix) >= 0 })
			to := len(all)
			if end != nil {
				to = sort.Search(len(all), func(i int) bool { return bytes.Compare(all[i].key, end) >= 0 })
			}
			got := map[int]bool{}
			for i := from; i < to; i++ {
				got[i] = true
			}
			for i, e := range all {
				want := e.kind == l.kind && len(e.of) >= len(l.of)
				for k := range l.of {
					want = want && e.of[k] == l.of[k]
				}
				if want != got[i] {
					rt.Fatalf("lookup of %s %q (%x): %s %q (%x) found %v, want %v", l.kind, l.of, l.prefix, e.kind, e.of, e.key, got[i], want)
				}
				if want && len(l.of) > 0 {
					n++
				}
			}
		}
		if n > 0 && len(addrs) > 1 {
			c.NonTrivial()
		}
		// parsing
		for _, e := range all {
			var got []interface{}
			key := append([]byte{}, e.key...)
			if p := tryCall(func() {
				switch e.kind {
				case "pools by pair":
					got = []interface{}{e.of[0], types.ParsePoolsByPairIndexKey(key)}
				case "deposits of":
					a, b, x := types.ParseDepositRequestIndexKey(key)
					got = []interface{}{string(a), b, x}
				case "withdrawals of":
					a, b, x := types.ParseWithdrawRequestIndexKey(key)
					got = []interface{}{string(a), b, x}
				case "orders of":
					a, b, x := types.ParseOrderIndexKey(key)
					got = []interface{}{string(a), b, x}
				case "mm":
					a, b := types.ParseNumMMOrdersKey(key)
					got = []interface{}{string(a), b}
				case "pairs by denoms":
					a, b, x := types.ParsePairsByDenomsIndexKey(key)
					got = []interface{}{a, b, x}
				default:
					got = e.of
				}
			}); p != nil {
				rt.Fatalf("parsing the key of %s %q: %v", e.kind, e.of, p)
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", e.of) {
				rt.Fatalf("the key of %s %q parses as %q", e.kind, e.of, got)
			}
		}
		// keys of another kind are not parsed
		for _, f := range []struct {
			kind string
			f    func(k []byte)
		}{{"pools by pair", func(k []byte) { types.ParsePoolsByPairIndexKey(k) }}, {"deposits of", func(k []byte) { types.ParseDepositRequestIndexKey(k) }},
			{"withdrawals of", func(k []byte) { types.ParseWithdrawRequestIndexKey(k) }}, {"orders of", func(k []byte) { types.ParseOrderIndexKey(k) }},
			{"mm", func(k []byte) { types.ParseNumMMOrdersKey(k) }}, {"pairs by denoms", func(k []byte) { types.ParsePairsByDenomsIndexKey(k) }}} {
			e := pick(rt, all, "other key")
			if e.kind != f.kind && tryCall(func() { f.f(e.key) }) == nil {
				rt.Fatalf("the key %x of %s %q is parsed as one of %s", e.key, e.kind, e.of, f.kind)
			}
		}
	})
	prop(t, "addresses", 4000, func(rt *rapid.T, c *Case) {
		seen := map[string]string{}
		put := func(a sdk.AccAddress, name string) {
			if err := sdk.VerifyAddressFormat(a); err != nil {
				rt.Fatalf("%s: %v", name, err)
			}
			if other, ok := seen[string(a)]; ok && other != name {
				rt.Fatalf("%s and %s share the address %s", other, name, a)
			}
			seen[string(a)] = name
		}
		for _, m := range []string{"dex", "bank", "gov", "mint", "distribution", "fee_collector", "bonded_tokens_pool", "not_bonded_tokens_pool"} {
			put(authtypes.NewModuleAddress(m), "module "+m)
		}
		put(types.GlobalEscrowAddress, "the global escrow")
		d := types.DefaultParams()
		put(sdk.MustAccAddressFromBech32(d.FeeCollectorAddress), "the fee collector")
		put(sdk.MustAccAddressFromBech32(d.DustCollectorAddress), "the dust collector")
		base := kid(rt, "base")
		c.Logf("ids around %d", base)
		for i := uint64(0); i < 40; i++ {
			for _, id := range []uint64{base + i, base - i, base ^ 1<<i, base ^ 1<<(63-i%64), base*10 + i, base / (i + 1)} {
				if id == 0 {
					continue
				}
				put(types.PairEscrowAddress(id), fmt.Sprintf("escrow of pair %d", id))
				put(types.PoolReserveAddress(id), fmt.Sprintf("reserve of pool %d", id))
				p, q := types.NewPair(id, "aaa", "bbb"), types.NewBasicPool(id, 1, addrN(1))
				r := types.NewRangedPool(id, 1, addrN(1), decOf(e18), decOf(mul(e18, bi(2))))
				if p.EscrowAddress != types.PairEscrowAddress(id).String() || !p.GetEscrowAddressAcc().Equals(types.PairEscrowAddress(id)) ||
					q.ReserveAddress != types.PoolReserveAddress(id).String() || r.ReserveAddress != q.ReserveAddress || q.PoolCoinDenom != r.PoolCoinDenom || !q.GetReserveAddressAcc().Equals(types.PoolReserveAddress(id)) {
					rt.Fatalf("the addresses of pair or pool %d differ", id)
				}
				if q.PoolCoinDenom != types.PoolCoinDenom(id) || sdk.ValidateDenom(q.PoolCoinDenom) != nil {
					rt.Fatalf("pool coin of %d: %s", id, q.PoolCoinDenom)
				}
				if x, err := types.ParsePoolCoinDenom(q.PoolCoinDenom); err != nil || x != id {
					rt.Fatalf("pool coin %s parses as %d %v", q.PoolCoinDenom, x, err)
				}
			}
		}
		c.NonTrivial()
	})
	prop(t, "names", 30000, func(rt *rapid.T, c *Case) {
		id := kid(rt, "id")
		name := []byte(types.PoolCoinDenom(id))
		const letters = "pol0123456789 +-_.xPé\n"
		for i, n := 0, int(uni(rt, 0, 3, "changes")); i < n; i++ {
			at := int(uni(rt, 0, int64(len(name)), "at"))
			ch := letters[uni(rt, 0, int64(len(letters)-1), "letter")]
			switch {
			case rapid.Bool().Draw(rt, "insert"):
				name = append(name[:at:at], append([]byte{ch}, name[at:]...)...)
			case at < len(name) && rapid.Bool().Draw(rt, "delete"):
				name = append(name[:at:at], name[at+1:]...)
			case at < len(name):
				name[at] = ch
			}
		}
		c.Logf("%q", name)
		x, err := types.ParsePoolCoinDenom(string(name))
		if err == nil {
			if types.PoolCoinDenom(x) != string(name) {
				rt.Fatalf("%q parses as the coin of pool %d, %q", name, x, types.PoolCoinDenom(x))
			}
			c.Label("a pool coin")
			c.NonTrivial()
		} else {
			if string(name) == types.PoolCoinDenom(id) {
				rt.Fatalf("%q: %v", name, err)
			}
			c.Label("no pool coin")
		}
	})
	prop(t, "strings", 20000, func(rt *rapid.T, c *Case) {
		// concatenations of prefixed denoms are unique
		ds := kdenoms(rt)
		list := func(label string) (out []string) {
			for i, n := 0, int(uni(rt, 0, 3, label)); i < n; i++ {
				out = append(out, pick(rt, ds, label))
			}
			return
		}
		a, b := list("a"), list("b")
		cat := func(ss []string) (out []byte) {
			for _, s := range ss {
				out = append(out, types.LengthPrefixString(s)...)
			}
			return
		}
		c.Logf("%q %q", a, b)
		if same := strings.Join(a, " ") == strings.Join(b, " "); same != bytes.Equal(cat(a), cat(b)) {
			rt.Fatalf("%q and %q: %x %x", a, b, cat(a), cat(b))
		} else if !same {
			c.NonTrivial()
		}
	})
}

func lens(as []sdk.AccAddress) (out []int) {
	for _, a := range as {
		out = append(out, len(a))
	}
	return
}
