package zverif

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	"github.com/cosmos/gogoproto/proto"
	icacontrollertypes "github.com/cosmos/ibc-go/v8/modules/apps/27-interchain-accounts/controller/types"
	icatypes "github.com/cosmos/ibc-go/v8/modules/apps/27-interchain-accounts/types"
	ibcfeetypes "github.com/cosmos/ibc-go/v8/modules/apps/29-fee/types"
	ibctransfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	ibcexported "github.com/cosmos/ibc-go/v8/modules/core/exported"
	localhost "github.com/cosmos/ibc-go/v8/modules/light-clients/09-localhost"
	"pgregory.net/rapid"

	dex "defund/x/dex/module"
	"defund/x/dex/types"
)

// ibcSim sends coins over IBC channels. The chain is connected with itself through the localhost
// connection, so that both ends of a channel are on it.
type ibcSim struct {
	n       *testnet
	relayer string
	other   map[string]string // the other end of a channel
	paths   map[string]string // of vouchers
	next    map[string]uint64 // sequence numbers
	packets []*packet
	escrow  map[string]*big.Int // channel|denom: coins held for vouchers

	// fees for relaying over the second pair of channels
	fees                bool
	paid                map[string][]relayFee // channel|sequence number
	payee, forwardPayee map[string]string     // by channel

	// an account which its owner has through a channel
	owner, ica string
	icaPort    string
	icaEnds    [2]string // channel
	icaVersion string
	icaNext    uint64
	icaPackets []*icaPacket
	icaDone    int // acknowledged

	received, settled, refunded, refused, remotes int
}

type packet struct {
	channeltypes.Packet
	path     string // of the coins
	amt      *big.Int
	from, to string
	ack      []byte // once received
	good     bool   // the acknowledgement
	done     bool   // acknowledged or timed out
	forward  string // who gets the fee for having received it
}

// relayFee is a fee for relaying a packet, until it has been relayed.
type relayFee struct {
	ibcfeetypes.Fee
	payer string
}

type icaPacket struct {
	channeltypes.Packet
	data icatypes.InterchainAccountPacketData
	ok   bool
	ack  []byte
}

func newIBC(n *testnet) *ibcSim {
	x := &ibcSim{n: n, relayer: userAddr(31).String(), other: map[string]string{"channel-0": "channel-1", "channel-1": "channel-0", "channel-2": "channel-3", "channel-3": "channel-2"},
		paths: map[string]string{}, next: map[string]uint64{}, escrow: map[string]*big.Int{},
		paid: map[string][]relayFee{}, payee: map[string]string{}, forwardPayee: map[string]string{}}
	n.keys[x.relayer] = userKey(31)
	nameOf[x.relayer] = "relayer"
	x.owner = userAddr(32).String()
	n.keys[x.owner] = userKey(32)
	nameOf[x.owner] = "owner"
	return x
}

const transferPort = ibctransfertypes.PortID

func (x *ibcSim) height() clienttypes.Height {
	return clienttypes.NewHeight(1, uint64(x.n.w.height))
}

// voucher is the denom of coins with a path.
func (x *ibcSim) voucher(path string) string {
	if !strings.Contains(path, "/") {
		return path
	}
	d := ibctransfertypes.ParseDenomTrace(path).IBCDenom()
	x.paths[d] = path
	return d
}

func (x *ibcSim) pathOf(denom string) string {
	if p, ok := x.paths[denom]; ok {
		return p
	}
	return denom
}

// run is for transactions of the opening.
func (x *ibcSim) opening(msgs ...sdk.Msg) {
	n := x.n
	ctx := n.main.at(n.w.height, n.w.now)
	seqs := map[string]uint64{}
	var txs []netTx
	for _, m := range msgs {
		a := n.signers([]sdk.Msg{m})[0]
		if _, ok := seqs[a]; !ok {
			seqs[a] = n.main.app.AccountKeeper.GetAccount(ctx, sdk.MustAccAddressFromBech32(a)).GetSequence()
		}
		txs = append(txs, netTx{n.encode(n.sign(ctx, seqs, []sdk.Msg{m}, signOpts{})), "", true})
		seqs[a]++
	}
	res := n.block(txs)
	for i, r := range res.TxResults {
		if r.Code != 0 {
			n.rt.Fatalf("opening: %s: %s", msgString(msgs[i]), r.Log)
		}
	}
	n.w.height++
}

// open makes two channels, and gives everybody coins which came over one of them.
func (x *ibcSim) open() {
	w := x.n.w
	hops := []string{ibcexported.LocalhostConnectionID}
	v := ibctransfertypes.Version
	x.fees = rapid.Bool().Draw(x.n.rt, "relay fees")
	var msgs []sdk.Msg
	for i := 0; i < 2; i++ {
		if i == 1 && x.fees {
			v = string(ibcfeetypes.ModuleCdc.MustMarshalJSON(&ibcfeetypes.Metadata{FeeVersion: ibcfeetypes.Version, AppVersion: v}))
		}
		a, b := fmt.Sprintf("channel-%d", 2*i), fmt.Sprintf("channel-%d", 2*i+1)
		msgs = append(msgs,
			channeltypes.NewMsgChannelOpenInit(transferPort, v, channeltypes.UNORDERED, hops, transferPort, x.relayer),
			channeltypes.NewMsgChannelOpenTry(transferPort, v, channeltypes.UNORDERED, hops, transferPort, a, v, localhost.SentinelProof, x.height(), x.relayer),
			channeltypes.NewMsgChannelOpenAck(transferPort, a, b, v, localhost.SentinelProof, x.height(), x.relayer),
			channeltypes.NewMsgChannelOpenConfirm(transferPort, b, localhost.SentinelProof, x.height(), x.relayer))
	}
	x.opening(msgs...)
	msgs = nil
	for i := 1; i <= 4; i++ {
		u := w.cfg.addr(i).String()
		amt := pow10i(w.cfg.rich - 1)
		if i == 4 {
			amt = bi(40_000)
			continue
		}
		p := x.packet("channel-0", "bbb", amt, u, u, clienttypes.ZeroHeight(), uint64(w.now.Add(time.Hour).UnixNano()))
		msgs = append(msgs, x.transferMsg(p), x.recvMsg(p))
		x.held("channel-0", "bbb", amt)
		p.ack, p.good = goodAck, true
	}
	x.opening(msgs...)
	if rapid.Bool().Draw(x.n.rt, "interchain account") {
		x.openICA()
	}
	w.denoms = []string{"aaa", x.voucher("transfer/channel-1/bbb"), "ccc"}
}

// openICA gives the second user's coins to an interchain account, which is the second user from now on.
func (x *ibcSim) openICA() {
	n, w := x.n, x.n.w
	x.icaPort = icatypes.ControllerPortPrefix + x.owner
	addr := x.openICAChannel("channel-4", "channel-5")
	x.ica = addr
	nameOf[x.ica] = "u2"
	nameOf[w.users[1]] = "former u2"
	from := sdk.MustAccAddressFromBech32(w.users[1])
	x.opening(banktypes.NewMsgSend(from, sdk.MustAccAddressFromBech32(addr), n.main.app.BankKeeper.GetAllBalances(n.main.at(w.height, w.now), from)))
	w.users[1] = addr
	n.c.Label("interchain account")
}

func (x *ibcSim) openICAChannel(here, there string) string {
	n, w := x.n, x.n.w
	conn := ibcexported.LocalhostConnectionID
	version := func(port, ch string) string {
		c, found := n.main.app.IBCKeeper.ChannelKeeper.GetChannel(n.main.at(w.height, w.now), port, ch)
		if !found {
			n.rt.Fatalf("no channel %s", ch)
		}
		return c.Version
	}
	x.opening(icacontrollertypes.NewMsgRegisterInterchainAccount(conn, x.owner, ""))
	v := version(x.icaPort, here)
	x.opening(channeltypes.NewMsgChannelOpenTry(icatypes.HostPortID, v, channeltypes.ORDERED, []string{conn}, x.icaPort, here, v, localhost.SentinelProof, x.height(), x.relayer))
	v = version(icatypes.HostPortID, there)
	x.opening(channeltypes.NewMsgChannelOpenAck(x.icaPort, here, there, v, localhost.SentinelProof, x.height(), x.relayer),
		channeltypes.NewMsgChannelOpenConfirm(icatypes.HostPortID, there, localhost.SentinelProof, x.height(), x.relayer))
	addr, found := n.main.app.ICAHostKeeper.GetInterchainAccountAddress(n.main.at(w.height, w.now), conn, x.icaPort)
	if !found {
		n.rt.Fatalf("no interchain account")
	}
	x.icaEnds = [2]string{here, there}
	return addr
}

// reopen lets a packet of the interchain account time out, which closes its channel, and opens another.
func (x *ibcSim) reopen() {
	n, w := x.n, x.n.w
	w.c.Logf("the channel of the interchain account is closed and opened again")
	n.opening = true
	p := x.icaPacket([]proto.Message{banktypes.NewMsgSend(sdk.MustAccAddressFromBech32(x.ica), userAddr(5), sdk.NewCoins(sdk.NewInt64Coin("aaa", 1)))}, 7*time.Second)
	before := n.main.app.BankKeeper.GetAllBalances(n.main.at(w.height, w.now), sdk.MustAccAddressFromBech32(x.ica))
	x.opening(icacontrollertypes.NewMsgSendTx(x.owner, ibcexported.LocalhostConnectionID, uint64(7*time.Second), p.data))
	w.now = w.now.Add(8 * time.Second)
	n.block(nil)
	w.height++
	done := p.Sequence
	x.opening(channeltypes.NewMsgTimeout(p.Packet, done, localhost.SentinelProof, x.height(), x.relayer))
	x.opening(channeltypes.NewMsgChannelCloseConfirm(icatypes.HostPortID, x.icaEnds[1], localhost.SentinelProof, x.height(), x.relayer))
	if addr := x.openICAChannel("channel-6", "channel-7"); addr != x.ica {
		n.rt.Fatalf("the interchain account %s is %s after its channel was opened again", x.ica, addr)
	}
	n.opening = false
	x.icaNext, x.icaPackets, x.icaDone = 0, nil, 0
	if got := n.main.app.BankKeeper.GetAllBalances(n.main.at(w.height, w.now), sdk.MustAccAddressFromBech32(x.ica)); !got.Equal(before) && len(w.cur.orders)+len(w.cur.deps)+len(w.cur.wds) == 0 {
		n.rt.Fatalf("the interchain account has %s after its channel was closed, it had %s", got, before)
	}
	n.c.Label("channel opened again")
	x.preview()
}

// preview begins a new preview of the next block.
func (x *ibcSim) preview() {
	n, w := x.n, x.n.w
	w.app = n.main.app
	w.ctx = n.main.at(w.height, w.now)
	w.ctx = w.header()
	w.cur = w.snap()
	s := &step{kind: "begin", pre: w.cur, mc: w.mc(), exp: w.cur.clone(), expOK: true, accepted: true}
	s.exp.beginBlock()
	s.panicked = tryCall(func() { dex.BeginBlocker(w.ctx, w.app.DexKeeper) })
	w.observe(s)
}

// icaPacket is the next packet of the interchain account.
func (x *ibcSim) icaPacket(msgs []proto.Message, life time.Duration) *icaPacket {
	bz, err := icatypes.SerializeCosmosTx(x.n.main.app.AppCodec(), msgs, icatypes.EncodingProtobuf)
	must(err)
	x.icaNext++
	p := &icaPacket{data: icatypes.InterchainAccountPacketData{Type: icatypes.EXECUTE_TX, Data: bz}}
	p.Packet = channeltypes.NewPacket(p.data.GetBytes(), x.icaNext, x.icaPort, x.icaEnds[0], icatypes.HostPortID, x.icaEnds[1], clienttypes.ZeroHeight(), uint64(x.n.w.now.Add(life).UnixNano()))
	return p
}

// remote tells whether a message is one of the interchain account.
func (x *ibcSim) remote(s *step) bool {
	return x.ica != "" && x.n.signers([]sdk.Msg{s.msg})[0] == x.ica
}

// carryOut sends the messages of the interchain account over the channel.
func (x *ibcSim) carryOut(steps []*step, add func(msgs []sdk.Msg, ok, ante bool)) {
	n, rt := x.n, x.n.rt
	var msgs []proto.Message
	ok := true
	for _, s := range steps {
		if !s.basic && s.kind != "send" {
			return
		}
		msgs = append(msgs, s.msg)
		ok = ok && s.accepted
	}
	relay := func(msgs []proto.Message, ok bool) {
		life := pick(rt, []time.Duration{time.Hour, 100 * time.Hour}, "lifetime")
		p := x.icaPacket(msgs, life)
		p.ok = ok
		data := p.data
		x.icaPackets = append(x.icaPackets, p)
		if rare(rt, 4, "not the owner") {
			add([]sdk.Msg{icacontrollertypes.NewMsgSendTx(n.w.users[0], ibcexported.LocalhostConnectionID, uint64(life), data)}, false, true)
		}
		recv := func(p channeltypes.Packet) sdk.Msg {
			return channeltypes.NewMsgRecvPacket(p, localhost.SentinelProof, x.height(), x.relayer)
		}
		if rare(rt, 4, "not sent yet") {
			add([]sdk.Msg{recv(p.Packet)}, false, true)
		}
		add([]sdk.Msg{icacontrollertypes.NewMsgSendTx(x.owner, ibcexported.LocalhostConnectionID, uint64(life), data)}, true, true)
		if rare(rt, 4, "other messages") {
			q := p.Packet
			steal := banktypes.NewMsgSend(sdk.MustAccAddressFromBech32(x.ica), userAddr(5), sdk.NewCoins(sdk.NewInt64Coin("aaa", 1)))
			bz, err := icatypes.SerializeCosmosTx(n.main.app.AppCodec(), []proto.Message{steal}, icatypes.EncodingProtobuf)
			must(err)
			q.Data = icatypes.InterchainAccountPacketData{Type: icatypes.EXECUTE_TX, Data: bz}.GetBytes()
			add([]sdk.Msg{recv(q)}, false, true)
		}
		add([]sdk.Msg{recv(p.Packet)}, true, true)
		if rare(rt, 4, "again") { // without any effect
			add([]sdk.Msg{recv(p.Packet)}, true, true)
		}
		x.remotes++
	}
	// what belongs to others, or fails, has no effect at all
	if rare(rt, 5, "of another") {
		from := sdk.MustAccAddressFromBech32(n.w.users[0])
		relay(append(append([]proto.Message{}, msgs...), banktypes.NewMsgSend(from, sdk.MustAccAddressFromBech32(x.ica), sdk.NewCoins(sdk.NewInt64Coin("aaa", 1)))), false)
		n.c.Label("remote, of another")
	}
	if ok && rare(rt, 5, "failing") {
		relay(append(append([]proto.Message{}, msgs...), types.NewMsgCreatePair(sdk.MustAccAddressFromBech32(x.ica), n.w.denoms[0], n.w.denoms[0]+"x"), types.NewMsgCancelOrder(sdk.MustAccAddressFromBech32(x.ica), 99, 99)), false)
		n.c.Label("remote, failing")
	}
	relay(msgs, ok)
	if ok {
		n.c.Label("remote " + steps[0].kind)
	}
}

// results reads the acknowledgements which a block has written for the interchain account.
func (x *ibcSim) results(res *abci.ResponseFinalizeBlock) {
	if x.ica == "" {
		return
	}
	for _, r := range res.TxResults {
		for _, e := range r.Events {
			if e.Type != channeltypes.EventTypeWriteAck {
				continue
			}
			at := map[string]string{}
			for _, a := range e.Attributes {
				at[a.Key] = a.Value
			}
			if at[channeltypes.AttributeKeyDstChannel] != x.icaEnds[1] {
				continue
			}
			for _, p := range x.icaPackets {
				if fmt.Sprint(p.Sequence) == at[channeltypes.AttributeKeySequence] {
					p.ack = fromHex(at[channeltypes.AttributeKeyAckHex])
					var ack ibcfeetypes.IncentivizedAcknowledgement
					ibcfeetypes.ModuleCdc.MustUnmarshalJSON(p.ack, &ack)
					if ack.Success() != p.ok {
						x.n.rt.Fatalf("the messages of the interchain account are acknowledged with %s, expected success: %v", p.ack, p.ok)
					}
				}
			}
		}
	}
	for _, p := range x.icaPackets {
		if p.ack == nil {
			x.n.rt.Fatalf("no acknowledgement for packet %d of the interchain account", p.Sequence)
		}
	}
}

// acks relays acknowledgements for the interchain account, in their order.
func (x *ibcSim) acks(add func(msgs []sdk.Msg, ok, ante bool)) {
	for ; x.icaDone < len(x.icaPackets) && rapid.Bool().Draw(x.n.rt, "acknowledge"); x.icaDone++ {
		p := x.icaPackets[x.icaDone]
		add([]sdk.Msg{channeltypes.NewMsgAcknowledgement(p.Packet, p.ack, localhost.SentinelProof, x.height(), x.relayer)}, true, true)
	}
}

func (x *ibcSim) held(ch, denom string, amt *big.Int) {
	k := ch + "|" + denom
	if x.escrow[k] == nil {
		x.escrow[k] = bi(0)
	}
	x.escrow[k] = add(x.escrow[k], amt)
}

// packet is the next packet of a channel, with coins.
func (x *ibcSim) packet(ch, path string, amt *big.Int, from, to string, th clienttypes.Height, ts uint64) *packet {
	x.next[ch]++
	data := ibctransfertypes.NewFungibleTokenPacketData(path, amt.String(), from, to, "")
	p := &packet{Packet: channeltypes.NewPacket(data.GetBytes(), x.next[ch], transferPort, ch, transferPort, x.other[ch], th, ts),
		path: path, amt: amt, from: from, to: to}
	x.packets = append(x.packets, p)
	return p
}

func (x *ibcSim) transferMsg(p *packet) sdk.Msg {
	return ibctransfertypes.NewMsgTransfer(transferPort, p.SourceChannel, sdk.Coin{Denom: x.voucher(p.path), Amount: toInt(p.amt)}, p.from, p.to, p.TimeoutHeight, p.TimeoutTimestamp, "")
}

func (x *ibcSim) recvMsg(p *packet) sdk.Msg {
	return channeltypes.NewMsgRecvPacket(p.Packet, localhost.SentinelProof, x.height(), x.relayer)
}

var goodAck = channeltypes.NewResultAcknowledgement([]byte{1}).Acknowledgement()

func escrowAddr(ch string) string {
	return ibctransfertypes.GetEscrowAddress(transferPort, ch).String()
}

// take is what sending over a channel does: vouchers of the channel are burned, other coins are held.
func (x *ibcSim) take(w *W, ch, path, from string, amt *big.Int) {
	d := x.voucher(path)
	w.addBal(from, d, neg(amt))
	if strings.HasPrefix(path, "transfer/"+ch+"/") {
		w.mint(d, neg(amt))
		return
	}
	w.addBal(escrowAddr(ch), d, amt)
	x.held(ch, d, amt)
}

// give is the opposite of take.
func (x *ibcSim) give(w *W, ch, path, to string, amt *big.Int) {
	d := x.voucher(path)
	w.addBal(to, d, amt)
	if strings.HasPrefix(path, "transfer/"+ch+"/") {
		w.mint(d, amt)
		return
	}
	w.addBal(escrowAddr(ch), d, neg(amt))
	x.held(ch, d, neg(amt))
}

// receive is what receiving the packet does, if the receiver can get the coins.
func (x *ibcSim) receive(w *W, p *packet) bool {
	to, err := sdk.AccAddressFromBech32(p.to)
	if err != nil || x.n.main.app.BankKeeper.BlockedAddr(to) {
		return false
	}
	if pre := "transfer/" + p.SourceChannel + "/"; strings.HasPrefix(p.path, pre) {
		x.give(w, p.DestinationChannel, strings.TrimPrefix(p.path, pre), p.to, p.amt)
	} else {
		x.give(w, p.DestinationChannel, "transfer/"+p.DestinationChannel+"/"+p.path, p.to, p.amt)
	}
	return true
}

// step delivers a message. effect changes the expected state and is nil if the message has none.
func (x *ibcSim) step(desc string, msg sdk.Msg, known, ok bool, effect func(w *W)) bool {
	w := x.n.w
	s := &step{kind: "ibc", msg: msg, pre: w.cur, mc: w.mc(), exp: w.cur.clone(), expOK: ok, basic: true}
	if v, is := msg.(interface{ ValidateBasic() error }); is {
		s.basic = v.ValidateBasic() == nil
	}
	if effect != nil {
		effect(s.exp)
	}
	s.err, s.panicked, s.events, s.gas = deliver(w.app, w.ctx, msg)
	s.accepted = s.err == nil
	w.c.Logf("  ibc %s: %v", desc, s.err)
	w.c.Label("ibc " + desc)
	w.sent(s)
	w.observe(s)
	if known && s.accepted != ok {
		w.rt.Fatalf("ibc %s: accepted %v, expected %v: %v\n%s", desc, s.accepted, ok, s.err, msgString(msg))
	}
	if len(s.diffs) > 0 {
		w.rt.Fatalf("ibc %s: %v\n%s", desc, msgString(msg), s.diffText())
	}
	return s.accepted
}

func (x *ibcSim) elapsed(p *packet) bool {
	w := x.n.w
	return p.TimeoutTimestamp != 0 && uint64(w.now.UnixNano()) >= p.TimeoutTimestamp || !p.TimeoutHeight.IsZero() && x.height().GTE(p.TimeoutHeight)
}

// send sends coins.
func (x *ibcSim) send() {
	rt, w := x.n.rt, x.n.w
	from := pick(rt, w.users, "from")
	var ds []string
	for d := range w.cur.bal[from] {
		if _, ok := x.paths[d]; ok || !strings.HasPrefix(d, "ibc/") {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return
	}
	sort.Strings(ds)
	d := pick(rt, ds, "denom")
	if v := w.denoms[1]; rapid.Bool().Draw(rt, "voucher") && w.cur.balOf(from, v).Sign() > 0 {
		d = v
	}
	amt := drawLog(rt, w.cfg.digits, "amt")
	switch uni(rt, 0, 9, "how much") {
	case 0:
		amt = w.cur.spendable(from, d)
	case 1:
		amt = add(w.cur.spendable(from, d), bi(1))
	}
	if amt.Sign() == 0 {
		return
	}
	ch := pick(rt, []string{"channel-0", "channel-1", "channel-1", "channel-2", "channel-3"}, "channel")
	if x.fees && rapid.Bool().Draw(rt, "with fees") {
		ch = pick(rt, []string{"channel-2", "channel-3"}, "channel")
	}
	to := pick(rt, append([]string{userAddr(5).String(), userAddr(6).String(), "nobody", authtypes.NewModuleAddress(distrtypes.ModuleName).String(), moduleAddr}, w.users...), "to")
	th, ts := clienttypes.ZeroHeight(), uint64(0)
	k := uni(rt, 0, 2, "timeout")
	if k != 1 {
		ts = uint64(w.now.Add(pick(rt, []time.Duration{1, time.Second, 7 * time.Second, time.Hour, time.Hour, 1000 * time.Hour, 0, -1}, "timestamp")).UnixNano())
	}
	if k != 0 {
		th = clienttypes.NewHeight(1, uint64(w.height+pick(rt, []int64{1, 2, 4, 1000, 1000, 0}, "height")))
	}
	p := x.packet(ch, x.pathOf(d), amt, from, to, th, ts)
	// the height of the last block counts when sending
	late := ts != 0 && ts <= uint64(w.now.UnixNano()) || !th.IsZero() && th.RevisionHeight < uint64(w.height)
	known := th.IsZero() || th.RevisionHeight != uint64(w.height)
	ok := !late && amt.Cmp(w.cur.spendable(from, d)) <= 0
	effect := func(w *W) { x.take(w, ch, p.path, from, amt) }
	if !ok {
		effect = nil
		if amt.Cmp(w.cur.spendable(from, d)) > 0 {
			x.n.c.Label("ibc too much")
		} else {
			x.n.c.Label("ibc too late")
		}
	} else if !known { // refused or timed out at once
		x.packets = x.packets[:len(x.packets)-1]
		x.next[ch]--
		return
	}
	if !x.step("send", x.transferMsg(p), true, ok, effect) {
		x.packets = x.packets[:len(x.packets)-1]
		x.next[ch]--
	}
}

func (x *ibcSim) hasFees(ch string) bool { return x.fees && (ch == "channel-2" || ch == "channel-3") }

var feeAddr = authtypes.NewModuleAddress(ibcfeetypes.ModuleName).String()

func (w *W) moveAll(from, to string, cs sdk.Coins) {
	for _, c := range cs {
		w.move(from, to, c.Denom, c.Amount.BigInt())
	}
}

// pay promises a fee for relaying a packet: the next one if p is nil.
func (x *ibcSim) pay(p *packet) {
	rt, w := x.n.rt, x.n.w
	from := pick(rt, w.users, "payer")
	if from == x.ica {
		return
	}
	coins := func(label string) sdk.Coins {
		cs := sdk.NewCoins()
		for i := uni(rt, 0, 2, label); i > 0; i-- {
			cs = cs.Add(sdk.NewCoin(pick(rt, w.denoms[:3], "denom"), toInt(drawLog(rt, w.cfg.digits-4, "fee"))))
		}
		return cs
	}
	f := ibcfeetypes.NewFee(coins("for receipt"), coins("for acknowledgement"), coins("for timeout"))
	if f.Validate() != nil {
		return
	}
	var msg sdk.Msg
	var ch string
	ok, k := true, ""
	if p != nil {
		ch, k = p.SourceChannel, fmt.Sprintf("%s|%d", p.SourceChannel, p.Sequence)
		ok = !p.done
		id := channeltypes.NewPacketID(transferPort, ch, p.Sequence)
		msg = ibcfeetypes.NewMsgPayPacketFeeAsync(id, ibcfeetypes.NewPacketFee(f, from, nil))
	} else {
		ch = pick(rt, []string{"channel-2", "channel-3"}, "channel")
		k = fmt.Sprintf("%s|%d", ch, x.next[ch]+1)
		msg = ibcfeetypes.NewMsgPayPacketFee(f, transferPort, ch, from, nil)
	}
	ok = ok && x.hasFees(ch)
	for _, c := range f.Total() {
		ok = ok && c.Amount.BigInt().Cmp(w.cur.spendable(from, c.Denom)) <= 0
	}
	effect := func(w *W) { w.moveAll(from, feeAddr, f.Total()) }
	if !ok {
		effect = nil
	}
	if x.step(fmt.Sprintf("fee %v", ok), msg, true, ok, effect) {
		x.paid[k] = append(x.paid[k], relayFee{f, from})
	}
}

// distribute pays those who relayed a packet, and gives the rest back.
func (x *ibcSim) distribute(w *W, p *packet, timedOut bool) {
	k := fmt.Sprintf("%s|%d", p.SourceChannel, p.Sequence)
	payee := x.relayer
	if a := x.payee[p.SourceChannel]; a != "" {
		payee = a
	}
	for _, f := range x.paid[k] {
		w.moveAll(feeAddr, f.payer, f.Total())
		if timedOut {
			w.moveAll(f.payer, payee, f.TimeoutFee)
			continue
		}
		w.moveAll(f.payer, payee, f.AckFee)
		if to, err := sdk.AccAddressFromBech32(p.forward); err == nil && !x.n.main.app.BankKeeper.BlockedAddr(to) {
			w.moveAll(f.payer, p.forward, f.RecvFee)
		}
		x.n.c.Label("relayer paid")
	}
	delete(x.paid, k)
}

// register tells who is paid instead of the relayer.
func (x *ibcSim) register() {
	rt := x.n.rt
	ch := pick(rt, []string{"channel-2", "channel-2", "channel-3", "channel-3", "channel-0"}, "channel")
	to := pick(rt, []string{userAddr(5).String(), userAddr(6).String(), x.n.w.users[0], moduleAddr}, "payee")
	if rapid.Bool().Draw(rt, "forward") {
		if rare(rt, 3, "invalid") {
			to = "nobody"
		}
		if x.step("register forward payee", ibcfeetypes.NewMsgRegisterCounterpartyPayee(transferPort, ch, x.relayer, to), true, x.hasFees(ch), nil) {
			x.forwardPayee[ch] = to
		}
		return
	}
	if x.step("register payee", ibcfeetypes.NewMsgRegisterPayee(transferPort, ch, x.relayer, to), true, x.hasFees(ch) && to != moduleAddr, nil) {
		x.payee[ch] = to
	}
}

func (x *ibcSim) anyPacket(f func(p *packet) bool) *packet {
	var ps []*packet
	for _, p := range x.packets {
		if f(p) {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return nil
	}
	return pick(x.n.rt, ps, "packet")
}

func (x *ibcSim) recv(p *packet) {
	switch {
	case p.ack != nil || p.done:
		x.step("receive again", x.recvMsg(p), false, false, nil)
	case x.elapsed(p):
		x.step("receive late", x.recvMsg(p), true, false, nil)
	default:
		x.step("receive", x.recvMsg(p), true, true, func(w *W) { p.good = x.receive(w, p) })
		x.received++
		if p.good {
			p.ack = goodAck
			if x.hasFees(p.DestinationChannel) {
				p.forward = x.forwardPayee[p.DestinationChannel]
				p.ack = ibcfeetypes.NewIncentivizedAcknowledgement(p.forward, goodAck, true).Acknowledgement()
			}
			return
		}
		x.n.c.Label("ibc refused by the receiver")
		// the acknowledgement tells an error code
		p.ack = x.n.ackOf(p)
		if x.hasFees(p.DestinationChannel) {
			p.forward = x.forwardPayee[p.DestinationChannel]
			var a ibcfeetypes.IncentivizedAcknowledgement
			ibcfeetypes.ModuleCdc.MustUnmarshalJSON(p.ack, &a)
			if a.ForwardRelayerAddress != p.forward || a.UnderlyingAppSuccess {
				x.n.rt.Fatalf("acknowledgement %s, receipt is paid to %q", p.ack, p.forward)
			}
		}
	}
}

// ackOf is the acknowledgement which was written for a packet.
func (n *testnet) ackOf(p *packet) []byte {
	want, found := n.main.app.IBCKeeper.ChannelKeeper.GetPacketAcknowledgement(n.w.ctx, p.DestinationPort, p.DestinationChannel, p.Sequence)
	if !found {
		n.rt.Fatalf("no acknowledgement for packet %d", p.Sequence)
	}
	for _, e := range n.w.lastEvents {
		if e.Type == channeltypes.EventTypeWriteAck {
			for _, a := range e.Attributes {
				if a.Key == channeltypes.AttributeKeyAckHex {
					bz := fromHex(a.Value)
					if bytes.Equal(channeltypes.CommitAcknowledgement(bz), want) {
						return bz
					}
				}
			}
		}
	}
	n.rt.Fatalf("no event with the acknowledgement of packet %d", p.Sequence)
	return nil
}

func (x *ibcSim) ackMsg(p *packet, ack []byte) sdk.Msg {
	return channeltypes.NewMsgAcknowledgement(p.Packet, ack, localhost.SentinelProof, x.height(), x.relayer)
}

func (x *ibcSim) acknowledge(p *packet) {
	switch {
	case p.done:
		x.step("acknowledge again", x.ackMsg(p, goodAck), false, false, nil)
	case p.ack == nil:
		x.step("acknowledge before receipt", x.ackMsg(p, goodAck), true, false, nil)
	default:
		x.step("acknowledge", x.ackMsg(p, p.ack), true, true, func(w *W) {
			x.distribute(w, p, false)
			if !p.good {
				x.give(w, p.SourceChannel, p.path, p.from, p.amt)
			}
		})
		p.done = true
		x.settled++
	}
}

func (x *ibcSim) timeoutMsg(p *packet) sdk.Msg {
	return channeltypes.NewMsgTimeout(p.Packet, 1, localhost.SentinelProof, x.height(), x.relayer)
}

func (x *ibcSim) timeout(p *packet) {
	switch {
	case p.done:
		x.step("time out again", x.timeoutMsg(p), false, false, nil)
	case p.ack != nil:
		x.step("time out after receipt", x.timeoutMsg(p), true, false, nil)
	case !x.elapsed(p):
		x.step("time out early", x.timeoutMsg(p), true, false, nil)
	default:
		x.step("time out", x.timeoutMsg(p), true, true, func(w *W) {
			x.distribute(w, p, true)
			x.give(w, p.SourceChannel, p.path, p.from, p.amt)
		})
		p.done = true
		x.refunded++
	}
}

// forge relays what was never sent.
func (x *ibcSim) forge() {
	rt, w := x.n.rt, x.n.w
	p := x.anyPacket(func(p *packet) bool { return !p.done || rare(rt, 3, "old") })
	if p == nil {
		return
	}
	q := *p
	data := func(path, amt, from, to string) {
		q.Data = ibctransfertypes.NewFungibleTokenPacketData(path, amt, from, to, "").GetBytes()
	}
	var msg sdk.Msg
	proof := localhost.SentinelProof
	what := pick(rt, []string{"amount", "receiver", "denom", "sequence", "channel", "proof", "acknowledgement", "refund"}, "forgery")
	switch what {
	case "amount":
		data(p.path, add(p.amt, bi(1)).String(), p.from, p.to)
	case "receiver":
		data(p.path, p.amt.String(), p.from, pick(rt, []string{userAddr(7).String(), w.users[0] + " "}, "thief"))
	case "denom":
		data("transfer/"+p.SourceChannel+"/stake", p.amt.String(), p.from, p.to)
	case "sequence":
		q.Sequence = x.next[p.SourceChannel] + uint64(uni(rt, 1, 3, "later"))
	case "channel":
		ch := map[string]string{"channel-0": "channel-2", "channel-2": "channel-0", "channel-1": "channel-3", "channel-3": "channel-1"}
		if rapid.Bool().Draw(rt, "both") {
			q.SourceChannel = ch[q.SourceChannel]
			q.Sequence = x.next[q.SourceChannel] + 1
		}
		q.DestinationChannel = ch[q.DestinationChannel]
	case "proof":
		proof = []byte{2}
	case "acknowledgement":
		if p.done {
			return
		}
		ack := channeltypes.NewErrorAcknowledgement(fmt.Errorf("x")).Acknowledgement()
		if !p.good && p.ack != nil {
			ack = goodAck
		}
		if bytes.Equal(ack, p.ack) {
			return
		}
		msg = x.ackMsg(p, ack)
	case "refund": // of something that was not sent
		data(p.path, add(p.amt, bi(1)).String(), p.from, p.to)
		msg = channeltypes.NewMsgTimeout(q.Packet, 1, proof, x.height(), x.relayer)
	}
	if p.done && (what == "proof" || what == "refund") { // no effect, but not refused either
		return
	}
	if msg == nil {
		msg = channeltypes.NewMsgRecvPacket(q.Packet, proof, x.height(), x.relayer)
	}
	x.step("forged "+what, msg, true, false, nil)
	x.refused++
}

func (x *ibcSim) do() {
	rt := x.n.rt
	open := func(p *packet) bool { return !p.done }
	any := func(p *packet) bool { return true }
	f := open
	if rare(rt, 4, "any packet") {
		f = any
	}
	switch uni(rt, 0, 12, "ibc") {
	case 0, 1, 2, 3:
		x.send()
	case 4, 5:
		if p := x.anyPacket(func(p *packet) bool { return f(p) && (p.ack == nil || rare(rt, 5, "again")) }); p != nil {
			x.recv(p)
		}
	case 6, 7:
		if p := x.anyPacket(func(p *packet) bool { return f(p) && (p.ack != nil || rare(rt, 5, "early")) }); p != nil {
			x.acknowledge(p)
		}
	case 8:
		if p := x.anyPacket(func(p *packet) bool { return f(p) && (x.elapsed(p) || rare(rt, 5, "early")) }); p != nil {
			x.timeout(p)
		}
	case 9:
		x.forge()
	case 10, 11, 12:
		switch {
		case !x.fees && !rare(rt, 5, "no fees"):
			x.send()
		case rare(rt, 3, "register"):
			x.register()
		default:
			var p *packet
			if rapid.Bool().Draw(rt, "sent") {
				p = x.anyPacket(func(p *packet) bool { return f(p) && (x.hasFees(p.SourceChannel) || rare(rt, 5, "no fees")) })
			}
			x.pay(p)
		}
	}
}

// backed tells whether the vouchers of every channel are covered by what the other end holds.
func (x *ibcSim) backed() {
	w := x.n.w
	flight := map[string]*big.Int{} // channel|denom: coins on their way
	for _, p := range x.packets {
		if p.done || p.ack != nil && p.good {
			continue
		}
		k, pre := p.SourceChannel+"|"+p.path, "transfer/"+p.SourceChannel+"/"
		if strings.HasPrefix(p.path, pre) { // coins going home
			k = p.DestinationChannel + "|" + strings.TrimPrefix(p.path, pre)
		}
		if flight[k] == nil {
			flight[k] = bi(0)
		}
		flight[k] = add(flight[k], p.amt)
	}
	fees := sdk.NewCoins()
	for _, fs := range x.paid {
		for _, f := range fs {
			fees = fees.Add(f.Total()...)
		}
	}
	if have := x.n.main.app.BankKeeper.GetAllBalances(w.ctx, sdk.MustAccAddressFromBech32(feeAddr)); !have.Equal(fees) {
		x.n.rt.Fatalf("%s is held for relayers, %s was promised", have, fees)
	}
	keys := map[string]bool{}
	for k := range x.escrow {
		i := strings.Index(k, "|")
		keys[k[:i]+"|"+x.pathOf(k[i+1:])] = true
	}
	for k := range flight {
		keys[k] = true
	}
	for _, k := range sortedS(keys) {
		i := strings.Index(k, "|")
		ch, path := k[:i], k[i+1:]
		held := w.cur.balOf(escrowAddr(ch), x.voucher(path))
		out := w.cur.supplyOf(x.voucher("transfer/" + x.other[ch] + "/" + path))
		if f := flight[k]; f != nil {
			out = add(out, f)
		}
		if held.Cmp(out) != 0 {
			x.n.rt.Fatalf("%s holds %s of %s, vouchers and coins on their way amount to %s", ch, held, path, out)
		}
		if t := x.n.main.app.TransferKeeper.GetTotalEscrowForDenom(w.ctx, x.voucher(path)); strings.Count(path, "/") == 0 || t.Amount.Sign() != 0 {
			sum := bi(0)
			for c := range x.other {
				sum = add(sum, w.cur.balOf(escrowAddr(c), x.voucher(path)))
			}
			if t.Amount.BigInt().Cmp(sum) != 0 {
				x.n.rt.Fatalf("%s of %s is said to be held, it is %s", t.Amount, path, sum)
			}
		}
	}
}

// settle relays everything which is on its way.
func (x *ibcSim) settle() {
	for i := 0; x.fees && i < 3; i++ {
		switch uni(x.n.rt, 0, 3, "fees") {
		case 0:
			x.register()
		case 1:
			x.pay(nil)
			x.send()
		case 2:
			x.send()
			fallthrough
		default:
			if p := x.anyPacket(func(p *packet) bool { return !p.done && x.hasFees(p.SourceChannel) }); p != nil {
				x.pay(p)
			}
		}
	}
	for _, p := range append([]*packet{}, x.packets...) {
		if p.ack == nil && !p.done {
			if x.elapsed(p) {
				x.timeout(p)
			} else {
				x.recv(p)
			}
		}
		if !p.done {
			x.acknowledge(p)
		}
	}
}

// home sends all vouchers of the users back to where they came from.
func (x *ibcSim) home() {
	w := x.n.w
	for changed := true; changed; {
		changed = false
		for _, u := range append([]string{userAddr(5).String(), userAddr(6).String()}, w.users...) {
			for _, d := range sortedS(w.cur.bal[u]) {
				path, ok := x.paths[d]
				if !ok || x.n.keys[u] == nil && u != x.ica {
					continue
				}
				ch := strings.Split(path, "/")[1]
				amt := w.cur.balOf(u, d)
				p := x.packet(ch, path, amt, u, u, clienttypes.ZeroHeight(), uint64(w.now.Add(time.Hour).UnixNano()))
				x.step("send home", x.transferMsg(p), true, true, func(w *W) { x.take(w, ch, path, u, amt) })
				x.recv(p)
				x.acknowledge(p)
				if !p.good {
					x.n.rt.Fatalf("%s of %s cannot go home", amt, path)
				}
				changed = true
			}
		}
	}
}

// move goes on with a new chain which begins with the exported state.
func (x *ibcSim) move() {
	n, w := x.n, x.n.w
	zero := rapid.Bool().Draw(n.rt, "zero")
	e, err := n.main.app.ExportAppStateAndValidators(zero, nil, nil)
	if err != nil {
		n.rt.Fatalf("export: %v", err)
	}
	w.c.Logf("export, for height zero: %v", zero)
	dst := openNode("imported", nil)
	if _, err := dst.app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: w.now, InitialHeight: maxI(1, e.Height), ConsensusParams: &e.ConsensusParams, AppStateBytes: e.AppState}); err != nil {
		n.rt.Fatalf("import: %v", err)
	}
	n.main, n.others = dst, nil
	w.height = maxI(1, e.Height)
	n.opening = true
	n.block(nil)
	n.opening = false
	w.height++
	x.preview()
	n.c.Label("exported and imported")
	x.backed()
}

func fromHex(s string) []byte {
	bz, err := hex.DecodeString(s)
	must(err)
	return bz
}

func TestC39(t *testing.T) {
	prop(t, "transfers", 400, func(rt *rapid.T, c *Case) {
		wt := map[string]int{"block": 22, "send": 2, "extra": 90}
		n := newNet(rt, c, worldCfg{ops: 50, digits: 12, magnitude: 4, weights: wt, ibc: true}, []string{"restarted"})
		x := n.ibc
		n.chaos = true
		n.after = x.backed
		n.w.play()
		again := x.ica != "" && rapid.Bool().Draw(rt, "reopen")
		if again && rapid.Bool().Draw(rt, "at once") {
			x.reopen()
			again = false
		}
		if rapid.Bool().Draw(rt, "move") {
			x.move()
		}
		if again {
			x.reopen()
		}
		x.settle()
		n.w.nextBlock(5 * time.Second)
		if x.ica != "" {
			from := sdk.MustAccAddressFromBech32(x.ica)
			n.w.run(types.NewMsgCancelAllOrders(from, nil))
			n.w.bankSend(x.ica, n.w.users[0], sdk.NewInt64Coin("aaa", 1))
		}
		x.home()
		n.w.nextBlock(5 * time.Second)
		if x.received > 1 && x.settled > 0 {
			c.NonTrivial()
		}
	})
}

var _ = abci.CodeTypeOK
var _ = banktypes.ModuleName
