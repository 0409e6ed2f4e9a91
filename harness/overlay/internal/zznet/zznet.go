// Package zznet stands in for the transport, the command line and signals:
// functions named as in google.golang.org/grpc (prefix Grpc), its credentials
// package (Cred), the generated protocol package (Rpc), viper (Viper), pflag
// (Pflag), net (Net) and os/signal (Signal) record what they are asked for.
package zznet

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io/fs"
	"net"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/spf13/pflag"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"

	rpc "github.com/netauth/protocol/v2"
)

// Creds are transport credentials that only record where they come from.
type Creds struct {
	credentials.TransportCredentials
	Server    bool
	Cert, Key string
	Name      string // server name expected
	Unchecked bool   // the peer's certificate is not verified
}

// ErrCreds is what loading credentials fails with.
var ErrCreds = errors.New("no usable certificate")

// CredsFail makes loading credentials fail.
var CredsFail bool

// CredsMissing makes it fail because the file does not exist.
var CredsMissing bool

// CredNewServerTLSFromFile stands for credentials.NewServerTLSFromFile.
func CredNewServerTLSFromFile(cert, key string) (credentials.TransportCredentials, error) {
	if CredsFail {
		if CredsMissing {
			return nil, &fs.PathError{Op: "open", Path: cert, Err: fs.ErrNotExist}
		}
		return nil, ErrCreds
	}
	return &Creds{Server: true, Cert: cert, Key: key}, nil
}

// CredNewClientTLSFromFile stands for credentials.NewClientTLSFromFile.
func CredNewClientTLSFromFile(cert, name string) (credentials.TransportCredentials, error) {
	if CredsFail {
		if CredsMissing {
			return nil, &fs.PathError{Op: "open", Path: cert, Err: fs.ErrNotExist}
		}
		return nil, ErrCreds
	}
	return &Creds{Cert: cert, Name: name}, nil
}

// CredNewTLS stands for credentials.NewTLS.
func CredNewTLS(c *tls.Config) credentials.TransportCredentials {
	return &Creds{Server: c != nil && len(c.Certificates) > 0, Unchecked: c != nil && c.InsecureSkipVerify, Cert: "?"}
}

// CredNewClientTLSFromCert stands for credentials.NewClientTLSFromCert.
func CredNewClientTLSFromCert(p *x509.CertPool, name string) credentials.TransportCredentials {
	return &Creds{Cert: "?", Name: name}
}

// ---- server side ----

// GrpcServerOption stands for grpc.ServerOption.
type GrpcServerOption struct {
	Creds credentials.TransportCredentials
	None  bool // not about credentials
}

// GrpcServer stands for grpc.Server.
type GrpcServer struct {
	Opts    []GrpcServerOption
	Svc     rpc.NetAuth2Server
	Stopped bool // it does not accept requests anymore
	Cut     bool // requests in flight were cut off

	Flight sync.WaitGroup // requests in flight
	Busy   int
	Quit   chan struct{}
}

// GrpcCreds stands for grpc.Creds.
func GrpcCreds(c credentials.TransportCredentials) GrpcServerOption {
	return GrpcServerOption{Creds: c}
}

// GrpcMaxRecvMsgSize stands for grpc.MaxRecvMsgSize.
func GrpcMaxRecvMsgSize(int) GrpcServerOption { return GrpcServerOption{None: true} }

// GrpcMaxSendMsgSize stands for grpc.MaxSendMsgSize.
func GrpcMaxSendMsgSize(int) GrpcServerOption { return GrpcServerOption{None: true} }

// GrpcConnectionTimeout stands for grpc.ConnectionTimeout.
func GrpcConnectionTimeout(time.Duration) GrpcServerOption { return GrpcServerOption{None: true} }

// GrpcNewServer stands for grpc.NewServer.
func GrpcNewServer(opts ...GrpcServerOption) *GrpcServer {
	return &GrpcServer{Opts: opts, Quit: make(chan struct{})}
}

// OnServe is called when a server starts serving.
var OnServe func(*GrpcServer) error

// Serve stands for (*grpc.Server).Serve.
func (s *GrpcServer) Serve(net.Listener) error {
	if OnServe == nil {
		return nil
	}
	return OnServe(s)
}

// GracefulStop stands for (*grpc.Server).GracefulStop.
func (s *GrpcServer) GracefulStop() {
	s.end()
	s.Flight.Wait()
}

// Stop stands for (*grpc.Server).Stop.
func (s *GrpcServer) Stop() {
	s.Cut = s.Cut || s.Busy > 0
	s.end()
}

func (s *GrpcServer) end() {
	if !s.Stopped {
		s.Stopped = true
		close(s.Quit)
	}
}

// RpcRegisterNetAuth2Server stands for the generated registration.
func RpcRegisterNetAuth2Server(s *GrpcServer, srv rpc.NetAuth2Server) { s.Svc = srv }

type listener struct{}

func (listener) Accept() (net.Conn, error) { return nil, errors.New("closed") }
func (listener) Close() error              { return nil }
func (listener) Addr() net.Addr            { return nil }

// ListenFails makes binding the socket fail.
var ListenFails bool

// NetListen stands for net.Listen.
func NetListen(network, addr string) (net.Listener, error) {
	if ListenFails {
		return nil, errors.New("address in use")
	}
	return listener{}, nil
}

// ---- configuration ----

// ConfigFails makes reading the configuration fail.
var ConfigFails bool

// ViperReadInConfig stands for viper.ReadInConfig.
func ViperReadInConfig() error {
	if ConfigFails {
		return errors.New("no configuration")
	}
	return nil
}

// ViperBindPFlags stands for viper.BindPFlags.
func ViperBindPFlags(*pflag.FlagSet) error { return nil }

// ViperConfigFileUsed stands for viper.ConfigFileUsed.
func ViperConfigFileUsed() string { return ConfigFile }

// ConfigFile is the configuration file in use.
var ConfigFile = "/etc/netauth/config.toml"

// ViperWriteConfigAs stands for viper.WriteConfigAs.
func ViperWriteConfigAs(string) error { return nil }

// ViperSetConfigName stands for viper.SetConfigName.
func ViperSetConfigName(string) {}

// ViperAddConfigPath stands for viper.AddConfigPath.
func ViperAddConfigPath(string) {}

// PflagParse stands for pflag.Parse: the harness sets the flags.
func PflagParse() {}

// Flag values by name; flags not listed have their default.
var (
	flagS = map[string]*string{}
	flagB = map[string]*bool{}
)

// PflagString stands for pflag.String.
func PflagString(name, def, usage string) *string {
	v := def
	flagS[name] = &v
	return &v
}

// PflagBool stands for pflag.Bool.
func PflagBool(name string, def bool, usage string) *bool {
	v := def
	flagB[name] = &v
	return &v
}

// PflagInt stands for pflag.Int.
func PflagInt(name string, def int, usage string) *int { return &def }

// PflagDuration stands for pflag.Duration.
func PflagDuration(name string, def time.Duration, usage string) *time.Duration { return &def }

// SetFlagString sets a flag.
func SetFlagString(name, v string) { *flagS[name] = v }

// SetFlagBool sets a flag.
func SetFlagBool(name string, v bool) { *flagB[name] = v }

// ---- client side ----

// GrpcDialOption stands for grpc.DialOption.
type GrpcDialOption struct {
	Creds    credentials.TransportCredentials
	Insecure bool
	None     bool
}

// GrpcClientConn stands for grpc.ClientConn.
type GrpcClientConn struct {
	Target string
	Opts   []GrpcDialOption
	Closed bool
}

// Close stands for (*grpc.ClientConn).Close.
func (c *GrpcClientConn) Close() error { c.Closed = true; return nil }

// GrpcWithInsecure stands for grpc.WithInsecure.
func GrpcWithInsecure() GrpcDialOption { return GrpcDialOption{Insecure: true} }

// GrpcWithTransportCredentials stands for grpc.WithTransportCredentials.
func GrpcWithTransportCredentials(c credentials.TransportCredentials) GrpcDialOption {
	return GrpcDialOption{Creds: c}
}

// GrpcWithBlock stands for grpc.WithBlock.
func GrpcWithBlock() GrpcDialOption { return GrpcDialOption{None: true} }

// GrpcWithUserAgent stands for grpc.WithUserAgent.
func GrpcWithUserAgent(string) GrpcDialOption { return GrpcDialOption{None: true} }

// GrpcWithTimeout stands for grpc.WithTimeout.
func GrpcWithTimeout(time.Duration) GrpcDialOption { return GrpcDialOption{None: true} }

// Dials are the connections made so far.
var Dials []*GrpcClientConn

// DialFails makes connecting fail.
var DialFails bool

// ErrDial is what connecting fails with.
var ErrDial = errors.New("connection refused")

// GrpcDial stands for grpc.Dial. Like the real one it refuses to connect
// unless told how to secure the transport.
func GrpcDial(target string, opts ...GrpcDialOption) (*GrpcClientConn, error) {
	if DialFails {
		return nil, ErrDial
	}
	secure, insecure := false, false
	for _, o := range opts {
		secure = secure || o.Creds != nil
		insecure = insecure || o.Insecure
	}
	if !secure && !insecure || secure && insecure {
		return nil, errors.New("transport security not set or contradictory")
	}
	c := &GrpcClientConn{Target: target, Opts: opts}
	Dials = append(Dials, c)
	return c, nil
}

// GrpcDialContext stands for grpc.DialContext.
func GrpcDialContext(ctx context.Context, target string, opts ...GrpcDialOption) (*GrpcClientConn, error) {
	return GrpcDial(target, opts...)
}

// Call is one request received.
type Call struct {
	Target string // address it went to
	Method string
	Req    proto.Message
	MD     metadata.MD
}

// Calls are the requests received.
var Calls []*Call

// Answer decides the reply.
var Answer func(c *Call) (proto.Message, error)

// Peer receives requests.
type Peer struct{ cc *GrpcClientConn }

// RpcNewNetAuth2Client stands for the generated constructor.
func RpcNewNetAuth2Client(cc *GrpcClientConn) rpc.NetAuth2Client { return &Peer{cc} }

func (p *Peer) call(method string, ctx context.Context, in proto.Message) (proto.Message, error) {
	md, _ := metadata.FromOutgoingContext(ctx)
	c := &Call{Target: p.cc.Target, Method: method, Req: in, MD: md}
	Calls = append(Calls, c)
	if p.cc.Closed {
		return nil, errors.New("connection closed")
	}
	return Answer(c)
}

var _ grpc.CallOption
