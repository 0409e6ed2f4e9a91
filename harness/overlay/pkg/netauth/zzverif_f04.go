package netauth

import (
	"context"
	"path"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

//gosym:bounds certificate path relative or absolute with 0..2 symbolic bytes, configuration directory set or inferred, the insecure switch on or off, other settings drawn, loading the certificate succeeding or failing, server and master equal or different, a change and a read
func VP_F04_client() {
	cert := nd.Str("cert", 0, 2, "k.")
	want := "/d/" + cert
	if nd.Bool("absolute") {
		cert = "/x/" + cert
		want = cert
	} else {
		nd.Assume(cert != "..")
	}
	insecure := nd.Bool("insecure")
	server := nd.Choose("server", "a", "127.0.0.1", "localhost", "")
	env.SetConf("core.port", []int{17, 1729, 80, 443, 0, 65535}[nd.Pick("port", 6)])
	env.SetConf("core.server", server)
	env.SetConf("core.master", nd.Choose("master", "", "b"))
	conf := "/d"
	if nd.Bool("inferred") {
		conf = ""
	}
	env.SetConf("core.conf", conf)
	zznet.ConfigFile = "/d/config.toml"
	env.SetConf("tls.certificate", cert)
	env.SetConf("tls.pwn_me", insecure)
	env.SetConf("tls.key", "")
	env.SetConf("token.cache", "memory")
	env.SetConf("token.backend", "none")
	env.SetConf("client.ID", nd.Choose("client", "", "cli"))
	zznet.CredsFail = nd.Bool("bad")
	zznet.CredsMissing = zznet.CredsFail && nd.Bool("missing")
	zznet.Answer = func(*zznet.Call) (proto.Message, error) { return &rpc.Empty{}, nil }
	c, err := NewWithLog(hclog.NewNullLogger())
	if !insecure && zznet.CredsFail {
		nd.Reach("refused")
		nd.Assert(err != nil && c == nil && len(zznet.Dials) == 0, "without a certificate no connection is made")
		return
	}
	nd.Assert(err == nil && c != nil, "a client is made")
	late := nd.Bool("late")
	if late {
		// the certificate disappears before the master is connected to
		zznet.CredsFail = true
	}
	if nd.Bool("change") {
		c.EntityLock(context.Background(), "e")
	} else {
		c.SystemPing(context.Background())
	}
	nd.Assert(len(zznet.Dials) > 0, "a connection is made")
	for _, d := range zznet.Dials {
		n, plain := 0, false
		for _, o := range d.Opts {
			plain = plain || o.Insecure
			if o.Creds != nil {
				n++
				k, ok := o.Creds.(*zznet.Creds)
				nd.Assert(ok && !k.Server && !k.Unchecked && (k.Name == ""), "the server's certificate is verified against its name")
				nd.Assert(insecure || path.Clean(k.Cert) == path.Clean(want), "the configured certificate is used")
			}
		}
		if insecure {
			nd.Reach("insecure")
			continue
		}
		nd.Reach("secure")
		nd.Assert(n == 1 && !plain, "every connection is secured")
	}
	for _, k := range zznet.Calls {
		nd.Assert(k.Target != "", "a request goes over a connection")
	}
}
