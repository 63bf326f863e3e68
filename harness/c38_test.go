package zverif

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	circuittypes "cosmossdk.io/x/circuit/types"
	"cosmossdk.io/x/feegrant"
	kmultisig "github.com/cosmos/cosmos-sdk/crypto/keys/multisig"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/cosmos/cosmos-sdk/crypto/types/multisig"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	"github.com/cosmos/cosmos-sdk/x/group"
	groupkeeper "github.com/cosmos/cosmos-sdk/x/group/keeper"
	"pgregory.net/rapid"

	"defund/x/dex/types"
)

// feeDenom is the coin fees are paid with.
const feeDenom = "zfee"

// deleg lets messages be carried out for their owners: u2 is a multi-signature account (2 of 3),
// u3 is an account which a group of three decides for (2 of 3), u1 and u4 sign themselves, and
// everybody may authorize others, or pay their fees. Parameters change by proposals.
type deleg struct {
	n        *testnet
	multi    string
	multiPub *kmultisig.LegacyAminoPubKey
	multiKey []cryptotypes.PrivKey
	policy   string
	members  []string
	grants   map[string]time.Time // granter, grantee, type: expiration, zero for never
	allow    map[string]*allowance
	nextGrp  uint64
	nextGov  uint64
	props    []*proposal
	tripped  map[string]bool
	fees     map[string]int64
	quiet    bool
	first    bool

	// of the block
	ctx  sdk.Context
	seqs map[string]uint64
	txs  []netTx

	execs, decided, refused, passed, failed int
}

type allowance struct {
	limit int64 // negative without
	exp   time.Time
}

type proposal struct {
	id     uint64
	msgs   []sdk.Msg
	voting bool
	end    time.Time // of the deposit period or the voting period
	vote   govv1.VoteOption
	done   bool
}

func newDeleg(n *testnet) *deleg {
	d := &deleg{n: n, grants: map[string]time.Time{}, allow: map[string]*allowance{}, nextGrp: 1, nextGov: 1, tripped: map[string]bool{}, fees: map[string]int64{}, first: true}
	var pubs []cryptotypes.PubKey
	for i := 21; i <= 23; i++ {
		d.multiKey = append(d.multiKey, userKey(i))
		pubs = append(pubs, userKey(i).PubKey())
	}
	d.multiPub = kmultisig.NewLegacyAminoPubKey(2, pubs)
	d.multi = sdk.AccAddress(d.multiPub.Address()).String()
	key := make([]byte, 8)
	binary.BigEndian.PutUint64(key, 1)
	cred, err := authtypes.NewModuleCredential(group.ModuleName, []byte{groupkeeper.GroupPolicyTablePrefix}, key)
	must(err)
	d.policy = sdk.AccAddress(cred.Address()).String()
	for i := 11; i <= 13; i++ {
		a := userAddr(i).String()
		d.members = append(d.members, a)
		n.keys[a] = userKey(i)
		nameOf[a] = fmt.Sprintf("m%d", i-10)
	}
	nameOf[d.multi], nameOf[d.policy] = "u2", "u3"
	n.keys[d.multi] = userKey(99) // any; it isn't used
	return d
}

func (d *deleg) addr(i int) sdk.AccAddress {
	switch i {
	case 2:
		return sdk.MustAccAddressFromBech32(d.multi)
	case 3:
		return sdk.MustAccAddressFromBech32(d.policy)
	}
	return userAddr(i)
}

func (d *deleg) more(bals []banktypes.Balance, accs []authtypes.GenesisAccount) ([]banktypes.Balance, []authtypes.GenesisAccount) {
	for _, m := range d.members {
		bals = append(bals, banktypes.Balance{Address: m, Coins: sdk.NewCoins(sdk.NewInt64Coin(feeDenom, 1_000_000_000))})
		accs = append(accs, authtypes.NewBaseAccountWithAddress(sdk.MustAccAddressFromBech32(m)))
	}
	return bals, accs
}

const (
	votingPeriod  = 12 * time.Second
	depositPeriod = 40 * time.Second
	groupPeriod   = 15 * time.Second
)

func (d *deleg) genesis(g map[string]json.RawMessage) {
	cdc := d.n.main.app.AppCodec()
	gg := govv1.DefaultGenesisState()
	v, e, m := votingPeriod, votingPeriod/2, depositPeriod
	gg.Params.VotingPeriod, gg.Params.ExpeditedVotingPeriod, gg.Params.MaxDepositPeriod = &v, &e, &m
	gg.Params.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin("stake", 1000))
	gg.Params.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin("stake", 5000))
	g[govtypes.ModuleName] = cdc.MustMarshalJSON(gg)
	cg := &circuittypes.GenesisState{AccountPermissions: []*circuittypes.GenesisAccountPermissions{{Address: userAddr(100).String(),
		Permissions: &circuittypes.Permissions{Level: circuittypes.Permissions_LEVEL_SUPER_ADMIN}}}}
	g[circuittypes.ModuleName] = cdc.MustMarshalJSON(cg)
}

// open makes the group.
func (d *deleg) open() {
	var ms []group.MemberRequest
	for _, m := range d.members {
		ms = append(ms, group.MemberRequest{Address: m, Weight: "1"})
	}
	msg, err := group.NewMsgCreateGroupWithPolicy(d.members[0], ms, "", "", false, group.NewThresholdDecisionPolicy("2", groupPeriod, 0))
	must(err)
	d.begin()
	d.tx("group", []sdk.Msg{msg}, true, true, signOpts{})
	res := d.n.block(d.txs)
	if res.TxResults[0].Code != 0 {
		panic(res.TxResults[0].Log)
	}
}

// multiSign makes a multi-signature, with all of the needed keys if not told otherwise.
func (d *deleg) multiSign(bz []byte, keys []int) *signing.MultiSignatureData {
	if keys == nil {
		keys = [][]int{{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}}[int(uni(d.n.rt, 0, 3, "signing keys"))]
	}
	data := multisig.NewMultisig(3)
	for _, k := range keys {
		key := d.multiKey[k%3]
		if k >= 3 { // another's key in its place
			key = userKey(5)
		}
		sig, err := key.Sign(bz)
		must(err)
		must(multisig.AddSignatureFromPubKey(data, &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON, Signature: sig}, d.multiKey[k%3].PubKey(), d.multiPub.GetPubKeys()))
	}
	return data
}

// sent is told of every message which is carried out.
func (d *deleg) sent(s *step) {
	n := d.n
	if t := sdk.MsgTypeURL(s.msg); d.tripped[t] && s.accepted {
		n.rt.Fatalf("%s was carried out although its type is disabled", msgString(s.msg))
	} else if !d.tripped[t] && !s.accepted && s.err != nil && strings.Contains(s.err.Error(), "circuit") {
		n.rt.Fatalf("%s was refused although its type isn't disabled: %v", msgString(s.msg), s.err)
	}
	if d.quiet {
		return
	}
	n.pending = append(n.pending, s)
	if rare(n.rt, 25, "circuit") {
		t := sdk.MsgTypeURL(s.msg)
		var msg sdk.Msg = &circuittypes.MsgTripCircuitBreaker{Authority: userAddr(100).String(), MsgTypeUrls: []string{t}}
		if len(d.tripped) > 0 {
			t = sortedS(d.tripped)[0]
			msg = &circuittypes.MsgResetCircuitBreaker{Authority: userAddr(100).String(), MsgTypeUrls: []string{t}}
			delete(d.tripped, t)
		} else {
			d.tripped[t] = true
		}
		a := &step{kind: "admin", msg: msg, pre: n.w.cur, mc: n.w.mc(), basic: true}
		a.err, a.panicked, a.events, a.gas = deliver(n.w.app, n.w.ctx, msg)
		a.accepted = a.err == nil
		n.w.c.Logf("  %s: %v", msgString(msg), a.err)
		if a.err != nil {
			n.rt.Fatalf("%s: %v", msgString(msg), a.err)
		}
		n.c.Label("circuit")
		n.pending = append(n.pending, a)
	}
}

// due carries out the proposals which are decided at the end of the block.
func (d *deleg) due() {
	n, w := d.n, d.n.w
	var due []*proposal
	for _, p := range d.props {
		if !p.done && !p.end.After(w.now) {
			p.done = true
			if p.voting {
				due = append(due, p)
			}
		}
	}
	sort.SliceStable(due, func(i, j int) bool {
		if !due[i].end.Equal(due[j].end) {
			return due[i].end.Before(due[j].end)
		}
		return due[i].id < due[j].id
	})
	for _, p := range due {
		if p.vote != govv1.VoteOption_VOTE_OPTION_YES {
			w.c.Logf("  proposal %d is rejected (%s)", p.id, p.vote)
			n.c.Label("proposal rejected")
			continue
		}
		cc, _ := w.ctx.CacheContext()
		ok := true
		for _, m := range p.msgs {
			if err, _, _, _ := deliver(w.app, cc, m); err != nil {
				ok = false
			}
		}
		w.c.Logf("  proposal %d has passed, it can be carried out: %v", p.id, ok)
		if !ok {
			n.c.Label("proposal failed")
			d.failed++
			continue
		}
		d.passed++
		n.c.Label("proposal passed")
		d.quiet = true
		for _, m := range p.msgs {
			s := w.run(m)
			if s.accepted != s.expOK {
				n.rt.Fatalf("%s: accepted %v, expected %v", msgString(m), s.accepted, s.expOK)
			}
		}
		d.quiet = false
	}
}

// paid is the state after the fees.
func (d *deleg) paid(before *W) *W {
	x := before.clone()
	for _, a := range sortedS(d.fees) {
		x.addBal(a, feeDenom, bi(-d.fees[a]))
	}
	return x
}

// ---- the transactions of a block ----

func (d *deleg) begin() {
	n := d.n
	d.ctx = n.main.at(n.w.height, n.w.now)
	d.seqs = map[string]uint64{}
	d.txs = nil
	d.fees = map[string]int64{}
	for a := range n.keys {
		if acc := n.main.app.AccountKeeper.GetAccount(d.ctx, sdk.MustAccAddressFromBech32(a)); acc != nil {
			d.seqs[a] = acc.GetSequence()
		}
	}
	for k, e := range d.grants {
		if !e.IsZero() && e.Before(n.w.now) {
			delete(d.grants, k)
			n.c.Label("authorization expired")
		}
	}
}

func (d *deleg) tx(desc string, msgs []sdk.Msg, ok, ante bool, o signOpts) {
	n := d.n
	who := n.signers(msgs)
	if o.fee == nil && ante && !d.first && rare(n.rt, 1, "fee") {
		amt := uni(n.rt, 1, 5000, "fee amount")
		o.fee = sdk.NewCoins(sdk.NewInt64Coin(feeDenom, amt))
		payer := who[0]
		if payer == userAddr(100).String() {
			o.fee = nil
		} else {
			for _, k := range sortedS(d.allow) {
				p := strings.Split(k, "|")
				a := d.allow[k]
				if p[1] != payer || !a.exp.IsZero() && a.exp.Before(n.w.now) || a.limit >= 0 && a.limit < amt || !rapid.Bool().Draw(n.rt, "granted fee") {
					continue
				}
				o.granter, payer = p[0], p[0]
				if a.limit >= 0 {
					a.limit -= amt
					if a.limit == 0 {
						delete(d.allow, k)
					}
				}
				n.c.Label("fee granted")
				break
			}
			d.fees[payer] += amt
		}
	}
	var names []string
	for _, m := range msgs {
		names = append(names, shortName(m))
	}
	for _, a := range who {
		desc += " " + userName(a)
	}
	d.txs = append(d.txs, netTx{n.encode(n.sign(d.ctx, d.seqs, msgs, o)), desc + ": " + strings.Join(names, "+"), ok})
	n.c.Logf("    tx %d %s: %s%s", len(d.txs)-1, desc, strings.Join(names, "+"), map[bool]string{true: "", false: " must fail"}[ok])
	if ante {
		for _, a := range who {
			d.seqs[a]++
		}
	}
}

func (d *deleg) owner(m sdk.Msg) string { return d.n.signers([]sdk.Msg{m})[0] }

func (d *deleg) grantees() []string {
	return append([]string{d.n.w.users[0], d.multi, d.n.w.users[3]}, d.members[:2]...)
}

func (d *deleg) mayExec(g string, m sdk.Msg) bool {
	o := d.owner(m)
	if o == g {
		return true
	}
	_, ok := d.grants[o+"|"+g+"|"+sdk.MsgTypeURL(m)]
	return ok
}

func (d *deleg) exec(g string, msgs []sdk.Msg) sdk.Msg {
	m := authz.NewMsgExec(sdk.MustAccAddressFromBech32(g), msgs)
	return &m
}

func (d *deleg) submit(proposers []string, msgs []sdk.Msg, exec group.Exec) sdk.Msg {
	m, err := group.NewMsgSubmitProposal(d.policy, proposers, msgs, "", exec, "title", "summary")
	must(err)
	return m
}

// decide lets the group decide for the messages.
func (d *deleg) decide(msgs []sdk.Msg) {
	rt := d.n.rt
	p := rapid.Permutation(append([]string{}, d.members...)).Draw(rt, "members")
	id := d.nextGrp
	d.nextGrp++
	vote := func(m string, o group.VoteOption, e group.Exec) {
		d.tx("vote", []sdk.Msg{&group.MsgVote{ProposalId: id, Voter: m, Option: o, Exec: e}}, true, true, signOpts{})
	}
	switch uni(rt, 0, 3, "way") {
	case 0:
		d.tx("decide", []sdk.Msg{d.submit(p[:2], msgs, group.Exec_EXEC_TRY)}, true, true, signOpts{})
	case 1:
		d.tx("propose", []sdk.Msg{d.submit(p[:1], msgs, group.Exec_EXEC_TRY)}, true, true, signOpts{})
		vote(p[1], group.VOTE_OPTION_YES, group.Exec_EXEC_TRY)
	case 2:
		d.tx("propose", []sdk.Msg{d.submit(p[2:], msgs, group.Exec_EXEC_UNSPECIFIED)}, true, true, signOpts{})
		vote(p[2], group.VOTE_OPTION_NO, group.Exec_EXEC_TRY)
		vote(p[0], group.VOTE_OPTION_YES, group.Exec_EXEC_TRY)
		vote(p[1], group.VOTE_OPTION_YES, group.Exec_EXEC_TRY)
	case 3:
		d.tx("propose", []sdk.Msg{d.submit(p[2:], msgs, group.Exec_EXEC_UNSPECIFIED)}, true, true, signOpts{})
		vote(p[0], group.VOTE_OPTION_YES, group.Exec_EXEC_UNSPECIFIED)
		vote(p[1], group.VOTE_OPTION_YES, group.Exec_EXEC_UNSPECIFIED)
		by := pick(rt, d.grantees(), "executor")
		d.tx("execute", []sdk.Msg{&group.MsgExec{ProposalId: id, Executor: by}}, true, true, signOpts{})
	}
	d.decided++
}

// own carries messages out in the way of their owner.
func (d *deleg) own(desc string, msgs []sdk.Msg) {
	if d.owner(msgs[0]) == d.policy {
		d.decide(msgs)
		return
	}
	d.tx(desc, msgs, true, true, signOpts{})
}

// administer changes authorizations and allowances.
func (d *deleg) administer(m sdk.Msg) {
	rt, n := d.n.rt, d.n
	granter := pick(rt, n.w.users, "granter")
	gs := d.grantees()
	if rapid.Bool().Draw(rt, "for the message") {
		granter = d.owner(m)
	}
	grantee := pick(rt, gs, "grantee")
	if granter == grantee || granter == userAddr(100).String() {
		return
	}
	expiry := func() (*time.Time, time.Time) {
		if rapid.Bool().Draw(rt, "expires") {
			t := n.w.now.Add(pick(rt, []time.Duration{1, time.Second, 5 * time.Second, 20 * time.Second, time.Hour}, "expiry"))
			return &t, t
		}
		return nil, time.Time{}
	}
	from, to := sdk.MustAccAddressFromBech32(granter), sdk.MustAccAddressFromBech32(grantee)
	switch uni(rt, 0, 9, "administer") {
	case 0, 1:
		if len(d.grants) > 0 {
			k := pick(rt, sortedS(d.grants), "grant")
			p := strings.Split(k, "|")
			r := authz.NewMsgRevoke(sdk.MustAccAddressFromBech32(p[0]), sdk.MustAccAddressFromBech32(p[1]), p[2])
			delete(d.grants, k)
			d.own("revoke", []sdk.Msg{&r})
			n.c.Label("authorization revoked")
		}
	case 2:
		k := granter + "|" + grantee
		if a := d.allow[k]; a != nil && (a.exp.IsZero() || !a.exp.Before(n.w.now)) {
			r := feegrant.NewMsgRevokeAllowance(from, to)
			d.own("revoke allowance", []sdk.Msg{&r})
			delete(d.allow, k)
		} else if a == nil {
			exp, e := expiry()
			b := &feegrant.BasicAllowance{Expiration: exp}
			x := &allowance{limit: -1, exp: e}
			if rapid.Bool().Draw(rt, "limit") {
				x.limit = uni(rt, 1, 10000, "spend limit")
				b.SpendLimit = sdk.NewCoins(sdk.NewInt64Coin(feeDenom, x.limit))
			}
			g, err := feegrant.NewMsgGrantAllowance(b, from, to)
			must(err)
			d.own("allowance", []sdk.Msg{g})
			d.allow[k] = x
		}
	default:
		exp, e := expiry()
		t := sdk.MsgTypeURL(m)
		g, err := authz.NewMsgGrant(from, to, authz.NewGenericAuthorization(t), exp)
		must(err)
		d.own("grant", []sdk.Msg{g})
		d.grants[granter+"|"+grantee+"|"+t] = e
		n.c.Label("authorized")
	}
}

// attempt tries to carry the message out without the right to.
func (d *deleg) attempt(m sdk.Msg) {
	rt, n := d.n.rt, d.n
	owner := d.owner(m)
	gift := func(from string) sdk.Msg {
		return &banktypes.MsgSend{FromAddress: from, ToAddress: n.w.users[0], Amount: sdk.NewCoins(sdk.NewInt64Coin(feeDenom, 1))}
	}
	kind := pick(rt, []string{"no authorization", "partly authorized", "one signature", "foreign signature", "outsider", "one vote", "foreign message", "fee", "allowance", "authority"}, "attempt")
	g := pick(rt, d.grantees(), "who")
	switch kind {
	case "no authorization":
		if d.mayExec(g, m) {
			return
		}
		d.tx(kind, []sdk.Msg{d.exec(g, []sdk.Msg{m})}, false, true, signOpts{})
	case "partly authorized":
		if d.mayExec(g, m) {
			return
		}
		d.tx(kind, []sdk.Msg{d.exec(g, []sdk.Msg{gift(g), m})}, false, true, signOpts{})
	case "one signature", "foreign signature":
		if owner != d.multi {
			m = gift(d.multi)
		}
		keys := []int{int(uni(rt, 0, 2, "key"))}
		if kind == "foreign signature" {
			keys = []int{0, 4}
		}
		d.tx(kind, []sdk.Msg{m}, false, false, signOpts{partial: map[string][]int{d.multi: keys}})
	case "outsider":
		if owner != d.policy {
			m = gift(d.policy)
		}
		d.tx(kind, []sdk.Msg{d.submit([]string{n.w.users[0]}, []sdk.Msg{m}, group.Exec_EXEC_TRY)}, false, true, signOpts{})
	case "one vote":
		if owner != d.policy {
			m = gift(d.policy)
		}
		p := rapid.Permutation(append([]string{}, d.members...)).Draw(rt, "members")
		d.tx(kind, []sdk.Msg{d.submit(p[:1], []sdk.Msg{m}, group.Exec_EXEC_TRY)}, true, true, signOpts{})
		id := d.nextGrp
		d.nextGrp++
		d.tx(kind, []sdk.Msg{&group.MsgVote{ProposalId: id, Voter: p[1], Option: pick(rt, []group.VoteOption{group.VOTE_OPTION_NO, group.VOTE_OPTION_ABSTAIN, group.VOTE_OPTION_NO_WITH_VETO}, "option"), Exec: group.Exec_EXEC_TRY}}, true, true, signOpts{})
		d.tx(kind, []sdk.Msg{&group.MsgExec{ProposalId: id, Executor: g}}, true, true, signOpts{})
	case "foreign message":
		if owner == d.policy {
			m = gift(n.w.users[0])
		}
		d.tx(kind, []sdk.Msg{d.submit(d.members[:2], []sdk.Msg{m}, group.Exec_EXEC_TRY)}, false, true, signOpts{})
	case "fee":
		if owner == d.policy || owner == userAddr(100).String() {
			m = gift(n.w.users[0])
		}
		d.tx(kind, []sdk.Msg{m}, false, false, signOpts{fee: sdk.NewCoins(sdk.NewInt64Coin(feeDenom, 2_000_000_000))})
	case "allowance":
		if owner == d.policy || owner == userAddr(100).String() {
			m = gift(n.w.users[0])
			owner = n.w.users[0]
		}
		granter := pick(rt, n.w.users, "granter")
		a := d.allow[granter+"|"+owner]
		amt := int64(10)
		switch {
		case granter == owner:
			return
		case a == nil || !a.exp.IsZero() && a.exp.Before(n.w.now):
		case a.limit >= 0:
			amt = a.limit + 1
		default:
			return
		}
		d.tx(kind, []sdk.Msg{m}, false, false, signOpts{fee: sdk.NewCoins(sdk.NewInt64Coin(feeDenom, amt)), granter: granter})
	case "authority":
		prm := n.w.cur.prm
		prm.BatchSize += 1
		u := &types.MsgUpdateParams{Authority: authority, Params: prm}
		switch uni(rt, 0, 2, "way") {
		case 0:
			d.tx(kind, []sdk.Msg{d.exec(g, []sdk.Msg{u})}, false, true, signOpts{})
		case 1:
			d.tx(kind, []sdk.Msg{d.submit(d.members[:2], []sdk.Msg{u}, group.Exec_EXEC_TRY)}, false, true, signOpts{})
		default:
			u.Authority = g
			d.tx(kind, []sdk.Msg{d.exec(g, []sdk.Msg{u})}, false, true, signOpts{})
		}
	}
	d.refused++
	n.c.Label("attempt: " + kind)
}

// govern makes proposals, and votes.
func (d *deleg) govern() {
	rt, w := d.n.rt, d.n.w
	op := userAddr(100)
	if rapid.Bool().Draw(rt, "propose") {
		var msgs []sdk.Msg
		for i, k := 0, int(uni(rt, 1, 2, "messages")); i < k; i++ {
			prm := w.cfg.params(rt)
			prm.TickPrecision = w.cur.prm.TickPrecision
			switch uni(rt, 0, 6, "content") {
			case 0:
				prm.BatchSize = 0
			case 1:
				prm = w.cur.prm
				prm.BatchSize = pick(rt, []uint32{1, 2, 3}, "batchSize")
			}
			msgs = append(msgs, &types.MsgUpdateParams{Authority: authority, Params: prm})
		}
		dep := pick(rt, []int64{1000, 5000, 100, 999}, "deposit")
		exp := rare(rt, 5, "foreign authority")
		if exp {
			msgs = append(msgs, &types.MsgUpdateParams{Authority: op.String(), Params: w.cur.prm})
		}
		m, err := govv1.NewMsgSubmitProposal(msgs, sdk.NewCoins(sdk.NewInt64Coin("stake", dep)), op.String(), "", "title", "summary", false)
		must(err)
		d.tx("propose", []sdk.Msg{m}, !exp, true, signOpts{})
		if !exp {
			p := &proposal{id: d.nextGov, msgs: msgs, voting: dep >= 1000, end: w.now.Add(depositPeriod)}
			if p.voting {
				p.end = w.now.Add(votingPeriod)
			}
			d.nextGov++
			d.props = append(d.props, p)
		}
	}
	for _, p := range d.props {
		if p.done || !p.end.After(w.now) || !rapid.Bool().Draw(rt, "act") {
			continue
		}
		if !p.voting {
			d.tx("deposit", []sdk.Msg{govv1.NewMsgDeposit(op, p.id, sdk.NewCoins(sdk.NewInt64Coin("stake", 1000)))}, true, true, signOpts{})
			p.voting, p.end = true, w.now.Add(votingPeriod)
			continue
		}
		yes := govv1.VoteOption_VOTE_OPTION_YES
		p.vote = pick(rt, []govv1.VoteOption{yes, yes, yes, yes, govv1.VoteOption_VOTE_OPTION_NO, govv1.VoteOption_VOTE_OPTION_ABSTAIN, govv1.VoteOption_VOTE_OPTION_NO_WITH_VETO}, "vote")
		d.tx("vote "+p.vote.String(), []sdk.Msg{govv1.NewMsgVote(op, p.id, p.vote, "")}, true, true, signOpts{})
	}
}

// build makes the transactions for the pending messages.
func (d *deleg) build() []netTx {
	rt, n := d.n.rt, d.n
	d.begin()
	pend := n.pending
	n.pending = nil
	for i := 0; i < len(pend); {
		s := pend[i]
		owner := d.owner(s.msg)
		if s.kind == "admin" {
			d.tx("admin", []sdk.Msg{s.msg}, s.accepted, true, signOpts{})
			i++
			continue
		}
		for rare(rt, 2, "administer") {
			d.administer(s.msg)
		}
		for s.accepted && rare(rt, 2, "attempt") {
			d.attempt(s.msg)
		}
		// the messages which are carried out together
		k := 1
		for s.accepted && i+k < len(pend) && pend[i+k].accepted && pend[i+k].kind != "admin" && rare(rt, 2, "bundle") {
			k++
		}
		// the ways to do that
		var msgs []sdk.Msg
		var ways []string
		for ; k > 0; k-- {
			msgs, ways = nil, nil
			own := true
			for _, x := range pend[i : i+k] {
				msgs = append(msgs, x.msg)
				o := d.owner(x.msg)
				own = own && (o == owner || o != d.policy && owner != d.policy)
			}
			if own {
				ways = append(ways, "own")
			}
			for _, g := range d.grantees() {
				may := true
				for _, m := range msgs {
					may = may && d.mayExec(g, m)
				}
				if may {
					ways = append(ways, g)
				}
			}
			if len(ways) > 0 {
				break
			}
		}
		way := pick(rt, ways, "way")
		bad := types.NewMsgCreatePair(sdk.MustAccAddressFromBech32(n.w.users[0]), "aaa", "bbb")
		switch {
		case way != "own":
			if s.accepted && !d.first && rare(rt, 6, "failing bundle") && d.mayExec(way, bad) {
				d.tx("authorized, failing", []sdk.Msg{d.exec(way, append(append([]sdk.Msg{}, msgs...), bad))}, false, true, signOpts{})
			}
			d.tx("authorized", []sdk.Msg{d.exec(way, msgs)}, s.accepted, true, signOpts{})
			d.execs++
			if k > 1 {
				n.c.Label("authorized bundle")
			}
			n.c.Label("authorized " + s.kind)
		case owner == d.policy:
			if !s.basic && s.kind != "send" {
				break
			}
			if s.accepted && !d.first && rare(rt, 6, "failing decision") {
				// one of the messages fails, so all do; tried again later, too
				x := types.NewMsgCreatePair(sdk.MustAccAddressFromBech32(d.policy), "aaa", "bbb")
				d.decide(append(append([]sdk.Msg{}, msgs...), x))
				if rapid.Bool().Draw(rt, "again") {
					d.tx("again", []sdk.Msg{&group.MsgExec{ProposalId: d.nextGrp - 1, Executor: d.members[0]}}, true, true, signOpts{})
				}
			}
			d.decide(msgs)
		default:
			d.tx("own", msgs, s.accepted, s.basic || s.kind == "send", signOpts{})
		}
		i += k
	}
	if !d.first {
		d.govern()
	}
	d.first = false
	return d.txs
}

// recorded compares the records which others keep of the rights.
func (d *deleg) recorded() {
	n := d.n
	ctx, now := n.w.ctx, n.w.now
	got := map[string]bool{}
	n.main.app.AuthzKeeper.IterateGrants(ctx, func(granter, grantee sdk.AccAddress, g authz.Grant) bool {
		a, err := g.GetAuthorization()
		must(err)
		got[granter.String()+"|"+grantee.String()+"|"+a.MsgTypeURL()] = true
		return false
	})
	if a, b := strings.Join(sortedS(got), "\n"), strings.Join(sortedS(d.grants), "\n"); a != b {
		n.rt.Fatalf("authorizations:\n%s\nexpected:\n%s", a, b)
	}
	allow := map[string]bool{}
	must(n.main.app.FeeGrantKeeper.IterateAllFeeAllowances(ctx, func(g feegrant.Grant) bool {
		allow[g.Granter+"|"+g.Grantee] = true
		return false
	}))
	for k, a := range d.allow {
		if !a.exp.IsZero() && a.exp.Before(now) {
			delete(d.allow, k)
		}
	}
	if a, b := strings.Join(sortedS(allow), "\n"), strings.Join(sortedS(d.allow), "\n"); a != b {
		n.rt.Fatalf("fee allowances:\n%s\nexpected:\n%s", a, b)
	}
	res, err := n.main.app.GroupKeeper.ProposalsByGroupPolicy(ctx, &group.QueryProposalsByGroupPolicyRequest{Address: d.policy})
	must(err)
	for _, p := range res.Proposals {
		if p.VotingPeriodEnd.Before(now) && p.Status == group.PROPOSAL_STATUS_SUBMITTED {
			n.rt.Fatalf("proposal %d of the group is still voted on after %s", p.Id, p.VotingPeriodEnd)
		}
	}
	dis := map[string]bool{}
	must(n.main.app.CircuitBreakerKeeper.DisableList.Walk(ctx, nil, func(k string) (bool, error) { dis[k] = true; return false, nil }))
	if a, b := strings.Join(sortedS(dis), "\n"), strings.Join(sortedS(d.tripped), "\n"); a != b {
		n.rt.Fatalf("disabled messages:\n%s\nexpected:\n%s", a, b)
	}
	active := 0
	must(n.main.app.GovKeeper.ActiveProposalsQueue.Walk(ctx, nil, func(_ collections.Pair[time.Time, uint64], _ uint64) (bool, error) { active++; return false, nil }))
	for _, p := range d.props {
		if p.voting && !p.done {
			active--
		}
	}
	if active != 0 {
		n.rt.Fatalf("%d more proposals are voted on than expected", active)
	}
}

func TestC38(t *testing.T) {
	prop(t, "delegation", 400, func(rt *rapid.T, c *Case) {
		n := newNet(rt, c, worldCfg{ops: 30, digits: 12, magnitude: 4, weights: netWeights, deleg: true}, nil)
		d := n.deleg
		n.after = d.recorded
		n.w.play()
		if d.execs > 0 && d.decided > 0 && d.refused > 0 {
			c.NonTrivial()
		}
		c.Logf("%d authorized, %d decided by the group, %d attempts, %d proposals passed, %d failed", d.execs, d.decided, d.refused, d.passed, d.failed)
	})
}

var _ = big.NewInt
var _ = math.NewInt
