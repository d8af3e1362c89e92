// Package uuid is a stand-in for github.com/satori/go.uuid (not available
// offline). Its randomness comes from a function the simulator installs.
package uuid

import (
	"crypto/md5"
	"crypto/rand"
	"crypto/sha1"
	"fmt"
)

// Source fills b with random bytes; the simulator replaces it.
var Source func(b []byte) = func(b []byte) { rand.Read(b) }

type UUID [16]byte

func NewV4() UUID {
	var u UUID
	Source(u[:])
	u[6] = u[6]&0x0f | 0x40
	u[8] = u[8]&0x3f | 0x80
	return u
}

func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:16])
}

func (u UUID) Bytes() []byte { return u[:] }
func (u UUID) Version() uint { return uint(u[6] >> 4) }

func Equal(a, b UUID) bool { return a == b }

var Nil UUID

// The predefined name spaces.
var (
	NamespaceDNS  = UUID{0x6b, 0xa7, 0xb8, 0x10, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8}
	NamespaceURL  = UUID{0x6b, 0xa7, 0xb8, 0x11, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8}
	NamespaceOID  = UUID{0x6b, 0xa7, 0xb8, 0x12, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8}
	NamespaceX500 = UUID{0x6b, 0xa7, 0xb8, 0x14, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8}
)

func named(version byte, sum []byte) UUID {
	var u UUID
	copy(u[:], sum)
	u[6] = u[6]&0x0f | version<<4
	u[8] = u[8]&0x3f | 0x80
	return u
}

// NewV3 and NewV5 depend on their arguments only.
func NewV3(ns UUID, name string) UUID {
	h := md5.Sum(append(append([]byte{}, ns[:]...), name...))
	return named(3, h[:])
}

func NewV5(ns UUID, name string) UUID {
	h := sha1.Sum(append(append([]byte{}, ns[:]...), name...))
	return named(5, h[:])
}

// NewV1 is made of the time and a sequence, which is what is asked of it.
func NewV1() UUID {
	var u UUID
	Source(u[:])
	return named(1, u[:])
}

func FromBytes(input []byte) (u UUID, err error) {
	if len(input) != 16 {
		return u, fmt.Errorf("uuid: UUID must be exactly 16 bytes long, got %d bytes", len(input))
	}
	copy(u[:], input)
	return u, nil
}
