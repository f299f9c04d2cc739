package pbt

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"syscall"
	"time"
)

var addrs = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<32))
var addrsLock = make(chan struct{}, 1)

// loopback picks an address of 127.0.0.0/8: each has ports of its own, so that connections of earlier cases (and
// of other checks) which linger in TIME_WAIT do not use them up.
func loopback() [4]byte {
	addrsLock <- struct{}{}
	defer func() { <-addrsLock }()
	return [4]byte{127, byte(1 + addrs.Intn(254)), byte(addrs.Intn(256)), byte(1 + addrs.Intn(254))}
}

// Listen listens on a free port of the loopback network.
func Listen() net.Listener {
	var err error
	for i := 0; i < 100; i++ {
		a := loopback()
		if i > 50 {
			a = [4]byte{127, 0, 0, 1}
		}
		var l net.Listener
		if l, err = net.Listen("tcp", net.IP(a[:]).String()+":0"); err == nil {
			return l
		}
	}
	fmt.Println("harness: no port:", err)
	os.Exit(2)
	return nil
}

// Refusing is a port that is taken but refuses connections.
func Refusing() net.Listener {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	for i := 0; i < 100 && err == nil; i++ {
		a := loopback()
		if i > 50 {
			a = [4]byte{127, 0, 0, 1}
		}
		if e := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: a}); e == nil {
			sa, _ := syscall.Getsockname(fd)
			return refuser{fd, sa.(*syscall.SockaddrInet4)}
		}
	}
	fmt.Println("harness: no port:", err)
	os.Exit(2)
	return nil
}

type refuser struct {
	fd int
	sa *syscall.SockaddrInet4
}

func (r refuser) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (r refuser) Close() error              { return syscall.Close(r.fd) }
func (r refuser) Addr() net.Addr {
	return &net.TCPAddr{IP: net.IP(r.sa.Addr[:]), Port: r.sa.Port}
}
