package skywalking

import (
	"net"
	"os"
	"strings"
	"testing"

	swrouting "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

func TestMain(m *testing.M) {
	// fasthttp starts a clock once that never ends: not in a bubble
	c, s := net.Pipe()
	go (&fasthttp.Server{Handler: func(*fasthttp.RequestCtx) {}, Logger: quiet{}}).ServeConn(s)
	c.Write([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"))
	c.Read(make([]byte, 100))
	c.Close()

	// an application may name its operations itself, or fail to
	name := swrouting.GetOperationName
	swrouting.GetOperationName = func(c *routing.Context) string {
		if strings.Contains(string(c.Path()), "noname") {
			return ""
		}
		return name(c)
	}
	os.Exit(m.Run())
}

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}
