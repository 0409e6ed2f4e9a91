package zznet

import (
	"encoding/gob"
	"errors"
	"io"
	"net"
	nrpc "net/rpc"
	"os"
	"sync"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/hashicorp/go-plugin"

	"github.com/netauth/netauth/internal/plugin/tree/common"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
)

// Plugin processes: functions named as in github.com/hashicorp/go-plugin
// (prefix Plugin) and os/exec (Exec) start children of the harness instead.
// What is exchanged with a child goes through the real net/rpc on replay; the
// symbolic execution uses rpcCall below, which models its encoding.

// Child is a plugin program.
type Child struct {
	Path          string
	Run           func() // its main function
	StartFails    bool
	DispenseFails bool
	DieAt         int  // request during which it dies, -1 for none
	DieLate       bool // it dies after having handled the request

	Running bool
	Dead    bool
	Calls   int
	Kills   int

	Server *common.GoPluginServer // what serves its requests

	served *PluginServeConfig
	conn   net.Conn
}

// Children are the plugin programs there are.
var Children []*Child

// NewChild adds a plugin program.
func NewChild(path string, run func()) *Child {
	c := &Child{Path: path, Run: run, DieAt: -1}
	Children = append(Children, c)
	return c
}

// ExecCmd stands for exec.Cmd.
type ExecCmd struct {
	Path string
	Args []string
	Env  []string
	Dir  string
}

// ExecCommand stands for exec.Command.
func ExecCommand(name string, arg ...string) *ExecCmd { return &ExecCmd{Path: name, Args: arg} }

// PluginHandshakeConfig stands for plugin.HandshakeConfig.
type PluginHandshakeConfig struct {
	ProtocolVersion  uint
	MagicCookieKey   string
	MagicCookieValue string
}

// PluginServeConfig stands for plugin.ServeConfig.
type PluginServeConfig struct {
	HandshakeConfig PluginHandshakeConfig
	Plugins         map[string]plugin.Plugin
	Logger          hclog.Logger
}

// PluginClientConfig stands for plugin.ClientConfig.
type PluginClientConfig struct {
	HandshakeConfig PluginHandshakeConfig
	Plugins         map[string]plugin.Plugin
	Cmd             *ExecCmd
	Logger          hclog.Logger
	Managed         bool
	StartTimeout    time.Duration
	Stderr          io.Writer
	SyncStdout      io.Writer
	SyncStderr      io.Writer
}

var starting *Child

// PluginServe stands for plugin.Serve: what the starting child serves.
func PluginServe(c *PluginServeConfig) { starting.served = c }

// PluginDiscover stands for plugin.Discover.
func PluginDiscover(glob, dir string) ([]string, error) {
	var out []string
	for _, c := range Children {
		out = append(out, c.Path)
	}
	return out, nil
}

// PluginClient stands for plugin.Client.
type PluginClient struct {
	cfg *PluginClientConfig
	ch  *Child
}

// PluginNewClient stands for plugin.NewClient.
func PluginNewClient(c *PluginClientConfig) *PluginClient { return &PluginClient{cfg: c} }

// PluginCleanupClients stands for plugin.CleanupClients.
func PluginCleanupClients() {}

// Client starts the child.
func (c *PluginClient) Client() (plugin.ClientProtocol, error) {
	if c.ch != nil {
		return c, nil
	}
	for _, x := range Children {
		if x.Path == c.cfg.Cmd.Path {
			c.ch = x
		}
	}
	if c.ch == nil || c.ch.StartFails {
		c.ch = nil
		return nil, errors.New("cannot start the plugin")
	}
	starting = c.ch
	c.ch.Run()
	if c.ch.served == nil || c.ch.served.HandshakeConfig != c.cfg.HandshakeConfig {
		c.ch = nil
		return nil, errors.New("not a plugin of this kind")
	}
	c.ch.Running = true
	return c, nil
}

// Kill stops the child.
func (c *PluginClient) Kill() {
	if c.ch == nil {
		return
	}
	c.ch.Running = false
	c.ch.Dead = true
	c.ch.Kills++
}

// Exited tells whether the child has ended.
func (c *PluginClient) Exited() bool { return c.ch == nil || !c.ch.Running }

// Close implements plugin.ClientProtocol.
func (c *PluginClient) Close() error { return nil }

// Ping implements plugin.ClientProtocol.
func (c *PluginClient) Ping() error {
	if c.ch.Dead {
		return errors.New("connection is shut down")
	}
	return nil
}

// Dispense implements plugin.ClientProtocol.
func (c *PluginClient) Dispense(name string) (interface{}, error) {
	ours, theirs := c.cfg.Plugins[name], c.ch.served.Plugins[name]
	if c.ch.DispenseFails || ours == nil || theirs == nil {
		return nil, errors.New("unknown plugin type")
	}
	s, err := theirs.Server(nil)
	if err != nil {
		return nil, err
	}
	srv := s.(*common.GoPluginServer)
	c.ch.Server = srv
	return ours.Client(nil, c.ch.connect(srv))
}

// link is one end of a connection to a child.
type link struct {
	cl  *nrpc.Client
	ch  *Child
	srv *common.GoPluginServer
}

var links []*link

func (c *Child) connect(srv *common.GoPluginServer) *nrpc.Client {
	if nd.Symbolic() {
		l := &link{cl: new(nrpc.Client), ch: c, srv: srv}
		links = append(links, l)
		return l.cl
	}
	a, b := net.Pipe()
	c.conn = a
	s := nrpc.NewServer()
	s.RegisterName("Plugin", &Mortal{c, srv})
	go s.ServeConn(a)
	return nrpc.NewClient(b)
}

// Mortal is a plugin that may die, for replay.
type Mortal struct {
	ch  *Child
	srv *common.GoPluginServer
}

// dying counts a request; it tells whether the plugin dies before handling it.
func (c *Child) dying() (before, after bool) {
	n := c.Calls
	c.Calls++
	if c.Dead {
		return true, false
	}
	return n == c.DieAt && !c.DieLate, n == c.DieAt && c.DieLate
}

// ProcessEntity answers requests of the server.
func (m *Mortal) ProcessEntity(o common.PluginOpts, r *common.PluginResult) error {
	return m.ch.live(func() error { return m.srv.ProcessEntity(o, r) })
}

// ProcessGroup answers requests of the server.
func (m *Mortal) ProcessGroup(o common.PluginOpts, r *common.PluginResult) error {
	return m.ch.live(func() error { return m.srv.ProcessGroup(o, r) })
}

func (c *Child) live(f func() error) error {
	before, after := c.dying()
	var err error
	if !before {
		err = f()
	}
	if before || after {
		c.Dead, c.Running = true, false
		c.conn.Close()
		// the connection is gone; the reply goes nowhere
		time.Sleep(10 * time.Millisecond)
	}
	return err
}

//gosym:replace (*net/rpc.Client).Call
func rpcCall(cl *nrpc.Client, method string, args, reply interface{}) error {
	var l *link
	for _, x := range links {
		if x.cl == cl {
			l = x
		}
	}
	o, ok := args.(common.PluginOpts)
	r, ok2 := reply.(*common.PluginResult)
	if l == nil || !ok || !ok2 {
		panic("unknown plugin request")
	}
	if _, ok := args.(gob.GobEncoder); ok {
		panic("unknown plugin encoding")
	}
	before, after := l.ch.dying()
	if before {
		l.ch.Dead, l.ch.Running = true, false
		return io.ErrUnexpectedEOF
	}
	in := common.PluginOpts{Action: o.Action, Entity: gobEntity(o.Entity), DataEntity: gobEntity(o.DataEntity), Group: gobGroup(o.Group), DataGroup: gobGroup(o.DataGroup)}
	var out common.PluginResult
	var err error
	switch method {
	case "Plugin.ProcessEntity":
		err = l.srv.ProcessEntity(in, &out)
	case "Plugin.ProcessGroup":
		err = l.srv.ProcessGroup(in, &out)
	default:
		return nrpc.ServerError("rpc: can't find method")
	}
	if after {
		l.ch.Dead, l.ch.Running = true, false
		return io.ErrUnexpectedEOF
	}
	if err != nil {
		return nrpc.ServerError(err.Error())
	}
	r.Entity = *gobEntity(&out.Entity)
	r.Group = *gobGroup(&out.Group)
	return nil
}

// The encoding of net/rpc: a pointer to a zero value arrives as nil, empty
// slices arrive as nil, everything else is copied.

func gobS(p *string) *string {
	if p == nil || *p == "" {
		return nil
	}
	s := *p
	return &s
}

func gobI(p *int32) *int32 {
	if p == nil || *p == 0 {
		return nil
	}
	i := *p
	return &i
}

func gobB(p *bool) *bool {
	if p == nil || !*p {
		return nil
	}
	b := *p
	return &b
}

func gobSS(s []string) []string { return append([]string(nil), s...) }

func gobKV(kv []*pb.KVData) []*pb.KVData {
	var out []*pb.KVData
	for _, d := range kv {
		n := &pb.KVData{Key: gobS(d.Key), XXX_unrecognized: append([]byte(nil), d.XXX_unrecognized...)}
		for _, v := range d.Values {
			n.Values = append(n.Values, &pb.KVValue{Value: gobS(v.Value), Index: gobI(v.Index), XXX_unrecognized: append([]byte(nil), v.XXX_unrecognized...)})
		}
		out = append(out, n)
	}
	return out
}

func gobEntity(e *pb.Entity) *pb.Entity {
	if e == nil {
		return nil
	}
	n := &pb.Entity{ID: gobS(e.ID), Number: gobI(e.Number), Secret: gobS(e.Secret), XXX_unrecognized: append([]byte(nil), e.XXX_unrecognized...)}
	if m := e.Meta; m != nil {
		n.Meta = &pb.EntityMeta{PrimaryGroup: gobS(m.PrimaryGroup), GECOS: gobS(m.GECOS), LegalName: gobS(m.LegalName), DisplayName: gobS(m.DisplayName),
			Home: gobS(m.Home), Shell: gobS(m.Shell), GraphicalShell: gobS(m.GraphicalShell), BadgeNumber: gobS(m.BadgeNumber), Locked: gobB(m.Locked),
			Groups: gobSS(m.Groups), Capabilities: append([]pb.Capability(nil), m.Capabilities...), Keys: gobSS(m.Keys), UntypedMeta: gobSS(m.UntypedMeta),
			KV: gobKV(m.KV), XXX_unrecognized: append([]byte(nil), m.XXX_unrecognized...)}
	}
	return n
}

func gobGroup(g *pb.Group) *pb.Group {
	if g == nil {
		return nil
	}
	return &pb.Group{Name: gobS(g.Name), DisplayName: gobS(g.DisplayName), Number: gobI(g.Number), ManagedBy: gobS(g.ManagedBy),
		Capabilities: append([]pb.Capability(nil), g.Capabilities...), Expansions: gobSS(g.Expansions), UntypedMeta: gobSS(g.UntypedMeta),
		KV: gobKV(g.KV), XXX_unrecognized: append([]byte(nil), g.XXX_unrecognized...)}
}

// ---- signals ----

type listening struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var listeners []listening

// SignalNotify stands for signal.Notify.
func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	sigMu.Lock()
	defer sigMu.Unlock()
	listeners = append(listeners, listening{c, sig})
}

var sigMu sync.Mutex

// Deliver delivers a signal; false when nobody listens for it, and the
// process would end at once.
func Deliver(sig os.Signal) bool {
	if !nd.Symbolic() {
		time.Sleep(100 * time.Millisecond) // let the server install its handlers
	}
	sigMu.Lock()
	defer sigMu.Unlock()
	heard := false
	for _, l := range listeners {
		for _, s := range l.sigs {
			if s == sig {
				heard = true
				select {
				case l.c <- sig:
				default:
				}
			}
		}
		heard = heard || len(l.sigs) == 0
	}
	return heard
}
