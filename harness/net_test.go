package zverif

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtcrypto "github.com/cometbft/cometbft/crypto/ed25519"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	cmttypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	vestingtypes "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	"pgregory.net/rapid"

	chain "defund/app"
	"defund/x/dex/types"
)

// ---- whole applications which process blocks of signed transactions ----

const chainID = "defund-verif-1"

// memDB is a database which can be copied.
type dbDump [][2][]byte

func dumpDB(db dbm.DB) (out dbDump) {
	it, err := db.Iterator(nil, nil)
	must(err)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		out = append(out, [2][]byte{append([]byte{}, it.Key()...), append([]byte{}, it.Value()...)})
	}
	return
}

func (d dbDump) db() *dbm.MemDB {
	db := dbm.NewMemDB()
	for _, e := range d {
		must(db.Set(e[0], append([]byte{}, e[1]...)))
	}
	return db
}

func newApp(db dbm.DB) *chain.App {
	return chain.New(log.NewNopLogger(), db, nil, true, simtestutil.EmptyAppOptions{}, baseapp.SetChainID(chainID))
}

func netConsensus() *cmtproto.ConsensusParams {
	return &cmtproto.ConsensusParams{
		Block:     &cmtproto.BlockParams{MaxBytes: 20_000_000, MaxGas: -1},
		Evidence:  &cmtproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
		Validator: &cmtproto.ValidatorParams{PubKeyTypes: []string{cmttypes.ABCIPubKeyTypeEd25519}},
	}
}

var valKey = cmtcrypto.GenPrivKeyFromSecret([]byte("validator"))

func userAddr(i int) sdk.AccAddress { return sdk.AccAddress(userKey(i).PubKey().Address()) }

func userKey(i int) cryptotypes.PrivKey {
	return secp256k1.GenPrivKeyFromSecret([]byte(fmt.Sprintf("user %d", i)))
}

func netGenesis(app *chain.App, prm types.Params, balances []banktypes.Balance, accs []authtypes.GenesisAccount) map[string]json.RawMessage {
	cdc := app.AppCodec()
	g := app.DefaultGenesis()
	op := userKey(100)
	opAddr := sdk.AccAddress(op.PubKey().Address())
	accs = append(accs, authtypes.NewBaseAccountWithAddress(opAddr))
	bond := math.NewInt(10_000_000)
	pk := valKey.PubKey()
	spk, err := cryptocodec.FromCmtPubKeyInterface(pk)
	must(err)
	any, err := codectypes.NewAnyWithValue(spk)
	must(err)
	val := stakingtypes.Validator{OperatorAddress: sdk.ValAddress(opAddr).String(), ConsensusPubkey: any, Status: stakingtypes.Bonded, Tokens: bond,
		DelegatorShares: math.LegacyNewDecFromInt(bond), UnbondingTime: time.Unix(0, 0).UTC(),
		Commission: stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()), MinSelfDelegation: math.ZeroInt()}
	del := stakingtypes.NewDelegation(opAddr.String(), sdk.ValAddress(opAddr).String(), math.LegacyNewDecFromInt(bond))
	g[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(stakingtypes.DefaultParams(), []stakingtypes.Validator{val}, []stakingtypes.Delegation{del}))
	balances = append(balances, banktypes.Balance{Address: authtypes.NewModuleAddress(stakingtypes.BondedPoolName).String(), Coins: sdk.NewCoins(sdk.NewCoin("stake", bond))},
		banktypes.Balance{Address: opAddr.String(), Coins: sdk.NewCoins(sdk.NewInt64Coin("stake", 1_000_000_000))})
	var total sdk.Coins
	for _, b := range balances {
		total = total.Add(b.Coins...)
	}
	sg := slashingtypes.DefaultGenesisState()
	cons := sdk.ConsAddress(pk.Address())
	sg.SigningInfos = []slashingtypes.SigningInfo{{Address: cons.String(), ValidatorSigningInfo: slashingtypes.NewValidatorSigningInfo(cons, 0, 0, time.Unix(0, 0).UTC(), false, 0)}}
	g[slashingtypes.ModuleName] = cdc.MustMarshalJSON(sg)
	g[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))
	g[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultParams(), balances, total, nil, nil))
	dg := types.DefaultGenesis()
	dg.Params = prm
	g[types.ModuleName] = cdc.MustMarshalJSON(dg)
	return g
}

// openingTime is the time of the genesis of every chain.
var openingTime = time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC)

// node is one application with its database.
type node struct {
	name string
	db   *dbm.MemDB
	app  *chain.App
}

func openNode(name string, d dbDump) *node {
	n := &node{name: name, db: d.db()}
	n.app = newApp(n.db)
	return n
}

func (n *node) reopen() { n.app = newApp(n.db) }

// at is a branch of the committed state.
func (n *node) at(height int64, now time.Time) sdk.Context {
	ctx, _ := n.app.NewUncachedContext(false, cmtproto.Header{ChainID: chainID, Height: height, Time: now}).CacheContext()
	return ctx
}

// netTx is a transaction of a block.
type netTx struct {
	bz   []byte
	desc string
	ok   bool // expected to succeed
}

// net is a chain driven through signed transactions, with several nodes.
type testnet struct {
	rt      *rapid.T
	c       *Case
	w       *world
	txc     client.TxConfig
	keys    map[string]cryptotypes.PrivKey
	main    *node   // previews messages, serves queries, checks transactions
	others  []*node // only process blocks
	genesis []byte
	pending []*step
	old     [][]byte // transactions of earlier blocks
	reqs    []*abci.RequestFinalizeBlock
	digests []string
	dumps   []dbDump // before each block
	states  []*W     // after each block
	forgery bool     // add transactions which must be refused
	lowGas  bool     // add transactions whose gas runs out
	chaos   bool     // interfere with the nodes
	after   func()
	deleg   *deleg  // other ways to carry out messages
	ibc     *ibcSim // transfers over IBC
	opening bool    // the first block after an import
	okTxs   int
	badTxs  int
	forged  int
	restart int
}

// netModules are the module accounts which other modules move coins between in every block.
var netModules = []string{govtypes.ModuleName, minttypes.ModuleName, authtypes.FeeCollectorName, distrtypes.ModuleName, stakingtypes.BondedPoolName, stakingtypes.NotBondedPoolName}

// exchange is the part of the state which only the messages and the exchange change.
func exchange(w *W) *W {
	x := w.clone()
	for _, m := range netModules {
		delete(x.bal, authtypes.NewModuleAddress(m).String())
	}
	delete(x.bal, userAddr(100).String())
	delete(x.supply, "stake")
	for a, b := range x.bal {
		if len(b) == 0 {
			delete(x.bal, a)
		}
	}
	return x
}

func diffExchange(a, b *W) (out []string) {
	for _, d := range diffW(exchange(a), exchange(b)) {
		out = append(out, d.text)
	}
	return
}

// newNet opens a chain whose nodes start from the same genesis.
func newNet(rt *rapid.T, c *Case, cfg worldCfg, others []string) *testnet {
	initBase()
	n := &testnet{rt: rt, c: c, keys: map[string]cryptotypes.PrivKey{}}
	cfg.addr = userAddr
	if cfg.deleg {
		n.deleg = newDeleg(n)
		cfg.addr = n.deleg.addr
	}
	if cfg.ibc {
		n.ibc = newIBC(n)
		cfg.extra = n.ibc.do
	}
	for i := 1; i <= 6; i++ {
		n.keys[userAddr(i).String()] = userKey(i)
		nameOf[userAddr(i).String()] = fmt.Sprintf("u%d", i)
	}
	n.keys[userAddr(100).String()] = userKey(100)
	cfg.chain = func(w *world, prm types.Params, lock int64) (*chain.App, sdk.Context) {
		n.main = openNode("main", nil)
		n.txc = authtx.NewTxConfig(n.main.app.AppCodec(), authtx.DefaultSignModes)
		var bals []banktypes.Balance
		var accs []authtypes.GenesisAccount
		for i := 1; i <= 4; i++ {
			amt := toInt(pow10i(w.cfg.rich))
			if i == 4 {
				amt = math.NewInt(50_000)
			}
			var coins sdk.Coins
			for _, d := range append(w.denoms, "stake") {
				coins = coins.Add(sdk.NewCoin(d, amt))
			}
			addr := cfg.addr(i)
			if n.deleg != nil {
				coins = coins.Add(sdk.NewInt64Coin(feeDenom, 1_000_000_000))
			}
			bals = append(bals, banktypes.Balance{Address: addr.String(), Coins: coins})
			if n.deleg != nil && addr.String() == n.deleg.policy {
				continue
			}
			acc := authtypes.NewBaseAccountWithAddress(addr)
			if i == 4 && lock >= 0 {
				var lc sdk.Coins
				for _, d := range w.denoms {
					lc = lc.Add(sdk.NewInt64Coin(d, lock))
				}
				va, err := vestingtypes.NewDelayedVestingAccount(acc, lc, 4102444800)
				must(err)
				accs = append(accs, va)
			} else {
				accs = append(accs, acc)
			}
		}
		var gs map[string]json.RawMessage
		if n.deleg != nil {
			bals, accs = n.deleg.more(bals, accs)
		}
		if n.ibc != nil {
			for _, i := range []int{5, 6, 31, 32} {
				accs = append(accs, authtypes.NewBaseAccountWithAddress(userAddr(i)))
			}
		}
		gs = netGenesis(n.main.app, prm, bals, accs)
		if n.deleg != nil {
			n.deleg.genesis(gs)
		}
		var err error
		n.genesis, err = json.Marshal(gs)
		must(err)
		n.initChain(n.main, n.genesis, 1, nil)
		for _, o := range others {
			x := openNode(o, nil)
			n.initChain(x, n.genesis, 1, nil)
			n.others = append(n.others, x)
		}
		// the first block opens the chain; the world begins with the second one
		w.height = 0
		n.w = w
		w.height = 1
		n.block(nil)
		w.height = 2
		if n.deleg != nil {
			n.deleg.open()
			w.height = 3
		}
		if n.ibc != nil {
			n.ibc.open()
		}
		return n.main.app, n.main.at(w.height, w.now)
	}
	newWorld(rt, c, cfg)
	n.w.sent = func(s *step) { n.pending = append(n.pending, s) }
	n.w.ended = n.ended
	if n.deleg != nil {
		n.w.sent, n.w.ending = n.deleg.sent, n.deleg.due
	}
	return n
}

func (n *testnet) initChain(x *node, state []byte, height int64, vals []abci.ValidatorUpdate) {
	_, err := x.app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: openingTime, InitialHeight: height, ConsensusParams: netConsensus(), AppStateBytes: state, Validators: vals})
	must(err)
}

// digest tells everything about the result of a block which has to agree.
func digest(r *abci.ResponseFinalizeBlock) string {
	var b strings.Builder
	for i, t := range r.TxResults {
		if strings.Contains(t.Log, "goroutine") || strings.Contains(t.Log, "panic") {
			t.Log = ""
		}
		bz, err := t.Marshal()
		must(err)
		fmt.Fprintf(&b, "tx %d: code %d gas %d %s %d events %x\n", i, t.Code, t.GasUsed, t.Log, len(t.Events), bz)
	}
	for _, e := range r.Events {
		fmt.Fprintf(&b, "event %s\n", e.String())
	}
	fmt.Fprintf(&b, "validators %v params %v\nhash %x\n", r.ValidatorUpdates, r.ConsensusParamUpdates, r.AppHash)
	return b.String()
}

// firstDiff names the first line in which two digests differ.
func firstLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := ""
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("%.300s\n%.300s", x[i], o)
		}
	}
	return ""
}

func finalize(app *chain.App, req *abci.RequestFinalizeBlock) (out string, res *abci.ResponseFinalizeBlock) {
	var err error
	if e := tryCall(func() { res, err = app.FinalizeBlock(req) }); e != nil {
		return fmt.Sprintf("panic: %v", e), nil
	}
	if err != nil {
		return "error: " + err.Error(), nil
	}
	return digest(res), res
}

// block processes one block on all nodes and returns the results.
func (n *testnet) block(txs []netTx) *abci.ResponseFinalizeBlock {
	w := n.w
	req := &abci.RequestFinalizeBlock{Height: w.height, Time: w.now, ProposerAddress: valKey.PubKey().Address()}
	for _, t := range txs {
		req.Txs = append(req.Txs, t.bz)
	}
	if w.height > 1 && !n.opening {
		req.DecidedLastCommit = abci.CommitInfo{Votes: []abci.VoteInfo{{Validator: abci.Validator{Address: valKey.PubKey().Address(), Power: 10}, BlockIdFlag: cmtproto.BlockIDFlagCommit}}}
	}
	if n.chaos {
		n.load(req)
	}
	n.dumps = append(n.dumps, dumpDB(n.main.db))
	out, res := finalize(n.main.app, req)
	if res == nil {
		n.rt.Fatalf("block %d: %s", w.height, out)
	}
	if n.chaos && rapid.Bool().Draw(n.rt, "queries in between") {
		n.queries()
	}
	_, err := n.main.app.Commit()
	must(err)
	n.reqs = append(n.reqs, req)
	n.digests = append(n.digests, out)
	for _, o := range n.others {
		if o.name == "restarted" && n.chaos {
			// the process may end at any point, what was not committed is lost
			for i := 0; i < 2; i++ {
				switch uni(n.rt, 0, 5, "crash") {
				case 0:
					o.reopen()
					n.restart++
				case 1:
					finalize(o.app, req)
					o.reopen()
					n.restart++
				}
			}
		}
		got, r := finalize(o.app, req)
		if got != out {
			n.rt.Fatalf("block %d: node %s differs from node %s:\n%s", w.height, o.name, n.main.name, firstLine(got, out))
		}
		if r != nil {
			_, err := o.app.Commit()
			must(err)
		}
	}
	return res
}

// load is what a node has to do besides processing blocks.
func (n *testnet) load(req *abci.RequestFinalizeBlock) {
	app := n.main.app
	if rapid.Bool().Draw(n.rt, "propose") {
		p, err := app.PrepareProposal(&abci.RequestPrepareProposal{Height: req.Height, Time: req.Time, Txs: req.Txs, MaxTxBytes: 10_000_000, ProposerAddress: req.ProposerAddress})
		must(err)
		if !reflect.DeepEqual(p.Txs, req.Txs) && len(p.Txs)+len(req.Txs) > 0 {
			n.rt.Fatalf("the proposal has %d transactions of %d", len(p.Txs), len(req.Txs))
		}
		v, err := app.ProcessProposal(&abci.RequestProcessProposal{Height: req.Height, Time: req.Time, Txs: req.Txs, ProposerAddress: req.ProposerAddress, Hash: []byte("hash")})
		must(err)
		if v.Status != abci.ResponseProcessProposal_ACCEPT {
			n.rt.Fatalf("the proposal is not accepted")
		}
	}
	if rapid.Bool().Draw(n.rt, "check") {
		for _, t := range req.Txs {
			_, err := app.CheckTx(&abci.RequestCheckTx{Tx: t, Type: abci.CheckTxType_New})
			must(err)
		}
	}
	if rapid.Bool().Draw(n.rt, "simulate") {
		for _, t := range req.Txs {
			_ = tryCall(func() { _, _, _ = app.Simulate(t) })
		}
	}
	if rapid.Bool().Draw(n.rt, "query") {
		n.queries()
	}
}

func (n *testnet) queries() {
	q := func(path string, m interface{ Marshal() ([]byte, error) }) {
		bz, err := m.Marshal()
		must(err)
		_ = tryCall(func() {
			_, _ = n.main.app.Query(context.Background(), &abci.RequestQuery{Path: "/defund.dex.Query/" + path, Data: bz})
		})
	}
	q("Params", &types.QueryParamsRequest{})
	q("Pairs", &types.QueryPairsRequest{})
	q("Pools", &types.QueryPoolsRequest{})
	for id := uint64(1); id <= 2; id++ {
		q("OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{id}, NumTicks: 5})
		q("Orders", &types.QueryOrdersRequest{PairId: id})
		q("Pool", &types.QueryPoolRequest{PoolId: id})
	}
}

// sign makes a transaction. keys are the keys of the signers in order.
type signOpts struct {
	mode     signing.SignMode
	chain    string
	accShift uint64
	seqShift uint64
	keys     map[string]cryptotypes.PrivKey // signing keys, if not the owners'
	pubs     map[string]cryptotypes.PubKey  // shown public keys, if not those of the signing keys
	memo     string
	gas      uint64
	fee      sdk.Coins
	granter  string           // of the fee
	partial  map[string][]int // keys of a multi-signature account which sign, if not enough of them
}

func (n *testnet) signers(msgs []sdk.Msg) (out []string) {
	seen := map[string]bool{}
	for _, m := range msgs {
		ss, _, err := n.main.app.AppCodec().GetMsgV1Signers(m)
		must(err)
		for _, s := range ss {
			a := sdk.AccAddress(s).String()
			if !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	return
}

func (n *testnet) sign(ctx sdk.Context, seqs map[string]uint64, msgs []sdk.Msg, o signOpts) client.TxBuilder {
	b := n.txc.NewTxBuilder()
	must(b.SetMsgs(msgs...))
	if o.gas == 0 {
		o.gas = 1 << 40
	}
	b.SetGasLimit(o.gas)
	b.SetMemo(o.memo)
	b.SetFeeAmount(o.fee)
	if o.granter != "" {
		b.SetFeeGranter(sdk.MustAccAddressFromBech32(o.granter))
	}
	if n.deleg != nil {
		for _, a := range n.signers(msgs) {
			if a == n.deleg.multi {
				o.mode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
			}
		}
	}
	if o.mode == 0 {
		o.mode = signing.SignMode_SIGN_MODE_DIRECT
	}
	if o.chain == "" {
		o.chain = chainID
	}
	signers := n.signers(msgs)
	keyOf := func(a string) cryptotypes.PrivKey {
		if k := o.keys[a]; k != nil {
			return k
		}
		return n.keys[a]
	}
	pubOf := func(a string) cryptotypes.PubKey {
		if k := o.pubs[a]; k != nil {
			return k
		}
		if n.deleg != nil && a == n.deleg.multi {
			return n.deleg.multiPub
		}
		return keyOf(a).PubKey()
	}
	var sigs []signing.SignatureV2
	for _, a := range signers {
		sigs = append(sigs, signing.SignatureV2{PubKey: pubOf(a), Sequence: seqs[a] + o.seqShift, Data: &signing.SingleSignatureData{SignMode: o.mode}})
	}
	must(b.SetSignatures(sigs...))
	for i, a := range signers {
		acc := n.main.app.AccountKeeper.GetAccount(ctx, sdk.MustAccAddressFromBech32(a))
		data := authsigning.SignerData{Address: a, ChainID: o.chain, AccountNumber: acc.GetAccountNumber() + o.accShift, Sequence: seqs[a] + o.seqShift, PubKey: pubOf(a)}
		bz, err := authsigning.GetSignBytesAdapter(context.Background(), n.txc.SignModeHandler(), o.mode, data, b.GetTx())
		must(err)
		if n.deleg != nil && a == n.deleg.multi {
			sigs[i].Data = n.deleg.multiSign(bz, o.partial[a])
			continue
		}
		sig, err := keyOf(a).Sign(bz)
		must(err)
		sigs[i].Data.(*signing.SingleSignatureData).Signature = sig
	}
	must(b.SetSignatures(sigs...))
	return b
}

func (n *testnet) encode(b client.TxBuilder) []byte {
	bz, err := n.txc.TxEncoder()(b.GetTx())
	must(err)
	return bz
}

// build makes the transactions of the pending messages.
func (n *testnet) build() (txs []netTx) {
	rt, w := n.rt, n.w
	ctx := n.main.at(w.height, w.now)
	seqs := map[string]uint64{}
	for a := range n.keys {
		if acc := n.main.app.AccountKeeper.GetAccount(ctx, sdk.MustAccAddressFromBech32(a)); acc != nil {
			seqs[a] = acc.GetSequence()
		}
	}
	mode := func() signing.SignMode {
		return pick(rt, []signing.SignMode{signing.SignMode_SIGN_MODE_DIRECT, signing.SignMode_SIGN_MODE_DIRECT, signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON}, "sign mode")
	}
	add := func(msgs []sdk.Msg, ok, ante bool) {
		b := n.sign(ctx, seqs, msgs, signOpts{mode: mode()})
		var names []string
		for _, m := range msgs {
			names = append(names, shortName(m))
		}
		txs = append(txs, netTx{n.encode(b), strings.Join(names, "+"), ok})
		if ante {
			for _, a := range n.signers(msgs) {
				seqs[a]++
			}
		}
	}
	var short []*step
	if n.ibc != nil {
		n.ibc.acks(add)
	}
	for i := 0; i < len(n.pending); {
		s := n.pending[i]
		if n.ibc != nil && n.ibc.remote(s) {
			k := 1
			for s.accepted && i+k < len(n.pending) && n.pending[i+k].accepted && n.ibc.remote(n.pending[i+k]) && rare(rt, 2, "bundle") {
				k++
			}
			n.ibc.carryOut(n.pending[i:i+k], add)
			i += k
			continue
		}
		if n.forgery {
			for rare(rt, 3, "forgery") {
				txs = append(txs, n.forge(ctx, seqs, s.msg))
			}
		}
		if !s.accepted {
			add([]sdk.Msg{s.msg}, false, s.basic || s.kind == "send")
			i++
			continue
		}
		if rare(rt, 4, "short of gas") && strings.HasPrefix(sdk.MsgTypeURL(s.msg), "/defund") && s.gas > 20000 && !strings.Contains(sdk.MsgTypeURL(s.msg), "Cancel") {
			short = append(short, s)
		}
		k := 1
		for i+k < len(n.pending) && n.pending[i+k].accepted && (n.ibc == nil || !n.ibc.remote(n.pending[i+k])) && rare(rt, 3, "bundle") {
			k++
		}
		var msgs []sdk.Msg
		for _, x := range n.pending[i : i+k] {
			msgs = append(msgs, x.msg)
		}
		if w.height > 2 && rare(rt, 8, "failing bundle") {
			// the last message fails, so all do
			add(append(append([]sdk.Msg{}, msgs...), types.NewMsgCreatePair(userAddr(1), w.denoms[0], w.denoms[1])), false, true)
		}
		add(msgs, true, true)
		if k > 1 {
			n.c.Label("several messages in a transaction")
		}
		i += k
	}
	if n.lowGas {
		// at the end of the block, since their sequence numbers are used up or not
		used := map[string]bool{}
		for _, s := range short {
			owner := n.signers([]sdk.Msg{s.msg})[0]
			if used[owner] {
				continue
			}
			used[owner] = true
			gas := uint64(uni(rt, 1, int64(s.gas/2), "gas"))
			txs = append(txs, netTx{n.encode(n.sign(ctx, seqs, []sdk.Msg{s.msg}, signOpts{mode: mode(), gas: gas})), fmt.Sprintf("%s with %d gas, it takes %d", shortName(s.msg), gas, s.gas), false})
			n.c.Label("out of gas")
		}
	}
	n.pending = nil
	return
}

// forge makes a transaction with the message which must be refused.
func (n *testnet) forge(ctx sdk.Context, seqs map[string]uint64, msg sdk.Msg) netTx {
	rt := n.rt
	n.forged++
	// a message which would be accepted if it was signed properly: a transfer to the forger
	owner := n.signers([]sdk.Msg{msg})[0]
	forger := userKey(5)
	msgs := []sdk.Msg{msg}
	if rapid.Bool().Draw(rt, "simple") {
		owner = n.w.users[int(uni(rt, 0, 2, "owner"))]
		from := sdk.MustAccAddressFromBech32(owner)
		switch uni(rt, 0, 2, "what") {
		case 0:
			msgs = []sdk.Msg{&banktypes.MsgSend{FromAddress: owner, ToAddress: userAddr(5).String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("aaa", 1))}}
		case 1:
			msgs = []sdk.Msg{types.NewMsgCreatePair(from, "ccc", "stake")}
		case 2:
			msgs = []sdk.Msg{types.NewMsgCancelAllOrders(from, nil)}
		}
	}
	kind := pick(rt, []string{"flipped", "wrong key", "wrong key shown as the owner's", "chain", "account number", "later sequence", "earlier sequence", "replay", "other message", "no signature", "memo", "gas", "other type", "two signers, one signature", "two signers, swapped"}, "forgery kind")
	o := signOpts{mode: signing.SignMode_SIGN_MODE_DIRECT}
	if rapid.Bool().Draw(rt, "amino") {
		o.mode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
	}
	bytesOf := func(b client.TxBuilder) netTx { return netTx{n.encode(b), "forged: " + kind, false} }
	n.c.Label("forgery: " + kind)
	switch kind {
	case "flipped":
		b := n.sign(ctx, seqs, msgs, o)
		sigs, err := b.GetTx().GetSignaturesV2()
		must(err)
		sig := sigs[0].Data.(*signing.SingleSignatureData)
		sig.Signature = append([]byte{}, sig.Signature...)
		sig.Signature[int(uni(rt, 0, int64(len(sig.Signature)-1), "byte"))] ^= byte(1 << uni(rt, 0, 7, "bit"))
		must(b.SetSignatures(sigs...))
		return bytesOf(b)
	case "wrong key":
		o.keys = map[string]cryptotypes.PrivKey{owner: forger}
	case "wrong key shown as the owner's":
		o.keys = map[string]cryptotypes.PrivKey{owner: forger}
		o.pubs = map[string]cryptotypes.PubKey{owner: n.keys[owner].PubKey()}
	case "chain":
		o.chain = pick(rt, []string{"defund-verif-2", "x", chainID + " "}, "chain")
	case "account number":
		o.accShift = 1
	case "later sequence":
		o.seqShift = 1
	case "earlier sequence":
		o.seqShift = ^uint64(0)
	case "replay":
		if len(n.old) > 0 {
			return netTx{n.old[int(uni(rt, 0, int64(len(n.old)-1), "old"))], "forged: " + kind, false}
		}
		o.seqShift = 2
	case "other message":
		b := n.sign(ctx, seqs, msgs, o)
		must(b.SetMsgs(&banktypes.MsgSend{FromAddress: owner, ToAddress: userAddr(5).String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("aaa", 2))}))
		return bytesOf(b)
	case "other type": // with the same content
		owner = n.w.users[int(uni(rt, 0, 2, "owner"))]
		from := sdk.MustAccAddressFromBech32(owner)
		var x, y sdk.Msg
		p, ok := n.w.anyPair("pair")
		if !ok {
			break
		}
		dir, offer, demand, price, amt := n.w.orderParts(p, false)
		switch uni(rt, 0, 2, "types") {
		case 0:
			x, y = types.NewMsgLimitOrder(from, p.Id, dir, offer, demand, price, amt, 0), types.NewMsgMMOrder(from, p.Id, dir, offer, demand, price, amt, 0)
		case 1:
			y, x = types.NewMsgLimitOrder(from, p.Id, dir, offer, demand, price, amt, 0), types.NewMsgMMOrder(from, p.Id, dir, offer, demand, price, amt, 0)
		case 2:
			x, y = types.NewMsgLimitOrder(from, p.Id, dir, offer, demand, price, amt, 0), types.NewMsgMarketOrder(from, p.Id, dir, offer, demand, amt, 0)
		}
		b := n.sign(ctx, seqs, []sdk.Msg{x}, o)
		must(b.SetMsgs(y))
		return bytesOf(b)
	case "memo":
		b := n.sign(ctx, seqs, msgs, o)
		b.SetMemo("other")
		return bytesOf(b)
	case "gas":
		b := n.sign(ctx, seqs, msgs, o)
		b.SetGasLimit(1 << 39)
		return bytesOf(b)
	case "no signature":
		b := n.txc.NewTxBuilder()
		must(b.SetMsgs(msgs...))
		b.SetGasLimit(1 << 40)
		return bytesOf(b)
	case "two signers, one signature", "two signers, swapped":
		other := n.w.users[0]
		if other == owner {
			other = n.w.users[1]
		}
		msgs = append([]sdk.Msg{types.NewMsgCancelAllOrders(sdk.MustAccAddressFromBech32(other), nil)}, msgs...)
		b := n.sign(ctx, seqs, msgs, o)
		sigs, err := b.GetTx().GetSignaturesV2()
		must(err)
		if len(sigs) != 2 {
			n.rt.Fatalf("%d signatures", len(sigs))
		}
		if kind == "two signers, swapped" {
			sigs[0], sigs[1] = sigs[1], sigs[0]
		} else {
			sigs = sigs[:1]
		}
		must(b.SetSignatures(sigs...))
		return bytesOf(b)
	}
	return bytesOf(n.sign(ctx, seqs, msgs, o))
}

// ended finalizes the block whose messages were previewed.
func (n *testnet) ended(s *step) {
	w := n.w
	var txs []netTx
	if n.deleg != nil {
		txs = n.deleg.build()
	} else {
		txs = n.build()
	}
	res := n.block(txs)
	for i, t := range txs {
		r := res.TxResults[i]
		if (r.Code == 0) != t.ok {
			n.rt.Fatalf("block %d: transaction %d (%s) has code %d, expected to succeed: %v\n%s", w.height, i, t.desc, r.Code, t.ok, r.Log)
		}
		if t.ok {
			n.okTxs++
			n.old = append(n.old, t.bz)
		} else {
			n.badTxs++
		}
	}
	if n.ibc != nil {
		n.ibc.results(res)
	}
	// the world goes on from the committed state
	before := w.cur
	if n.deleg != nil {
		before = n.deleg.paid(before)
	}
	w.ctx = n.main.at(w.height, w.now)
	w.app = n.main.app
	w.cur = w.snap()
	if d := diffExchange(before, w.cur); len(d) > 0 {
		n.rt.Fatalf("block %d: the chain's state is not the one that the messages lead to:\n%s", w.height, strings.Join(d, "\n"))
	}
	n.states = append(n.states, w.cur)
	if n.after != nil {
		n.after()
	}
}

// ---- a fresh process ----

type childJob struct {
	DB      dbDump
	Reqs    [][]byte
	Digests []string
}

// child continues the chain from before block k in a fresh process.
func (n *testnet) child(k int) {
	job := childJob{DB: n.dumps[k]}
	for i := k; i < len(n.reqs); i++ {
		bz, err := n.reqs[i].Marshal()
		must(err)
		job.Reqs = append(job.Reqs, bz)
		job.Digests = append(job.Digests, n.digests[i])
	}
	dir, err := os.MkdirTemp("", "verif-child")
	must(err)
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "job")
	f, err := os.Create(file)
	must(err)
	must(gob.NewEncoder(f).Encode(job))
	must(f.Close())
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, "-test.run", "^TestChildNode$")
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_CHILD="+file)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil || !strings.Contains(out.String(), "CHILD-OK") {
		n.rt.Fatalf("a fresh process which goes on from block %d: %v\n%.3000s", n.reqs[k].Height, err, out.String())
	}
}

func TestChildNode(t *testing.T) {
	file := os.Getenv("VERIF_CHILD")
	if file == "" {
		t.Skip()
	}
	f, err := os.Open(file)
	must(err)
	defer f.Close()
	var job childJob
	must(gob.NewDecoder(f).Decode(&job))
	x := openNode("fresh", job.DB)
	for i, bz := range job.Reqs {
		req := &abci.RequestFinalizeBlock{}
		must(req.Unmarshal(bz))
		got, res := finalize(x.app, req)
		if got != job.Digests[i] {
			t.Fatalf("block %d differs:\n%s", req.Height, firstLine(got, job.Digests[i]))
		}
		if res != nil {
			_, err := x.app.Commit()
			must(err)
		}
	}
	fmt.Println("CHILD-OK")
}

var _ = big.NewInt
