// Package net replaces the socket functions of package net by the virtual
// network. Everything not declared here is an alias of the real package
// (generated).
package net

import (
	"context"
	"errors"
	"net"
	"strconv"
	"strings"

	"verif.local/zz/vnet"
)

// UDPConn is the virtual UDP socket.
type UDPConn = vnet.Sock

func port(address string) (int, error) {
	i := strings.LastIndexByte(address, ':')
	if i < 0 {
		return 0, &net.AddrError{Err: "missing port in address", Addr: address}
	}
	p, err := strconv.Atoi(address[i+1:])
	if err != nil && address[i+1:] == "" {
		return 0, nil
	}
	return p, err
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	if !strings.HasPrefix(network, "udp") {
		return nil, errors.New("network " + network + " is not simulated")
	}
	p, err := port(address)
	if err != nil {
		return nil, err
	}
	s, err := vnet.Listen(p)
	if err != nil {
		return nil, err
	}
	return s, nil
}

func ListenUDP(network string, a *net.UDPAddr) (*UDPConn, error) {
	p := 0
	if a != nil {
		p = a.Port
	}
	return vnet.Listen(p)
}

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct{}

func (ListenConfig) ListenPacket(_ context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	i := strings.LastIndexByte(address, ':')
	if i < 0 {
		return nil, &net.AddrError{Err: "missing port in address", Addr: address}
	}
	host := strings.Trim(address[:i], "[]")
	p, err := strconv.Atoi(address[i+1:])
	if err != nil || p < 0 || p > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: address[i+1:]}
	}
	u := &net.UDPAddr{Port: p}
	switch {
	case host == "":
	case host == "localhost":
		u.IP = net.IPv4(127, 0, 0, 1).To4()
	default:
		u.IP = net.ParseIP(host)
		if u.IP == nil {
			return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
		}
	}
	return u, nil
}

var errSim = errors.New("not simulated")

func Dial(network, address string) (net.Conn, error)       { return nil, errSim }
func Listen(network, address string) (net.Listener, error) { return nil, errSim }
