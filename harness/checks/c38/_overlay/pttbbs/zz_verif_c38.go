package pttbbs

import (
	"hash"

	"github.com/Ptt-official-app/go-bbs/pttbbs/internal/fnv"
)

// VerifFnv hands out the hash of the internal package
func VerifFnv(offset uint32) hash.Hash32 { return fnv.New32aWith(offset) }

// VerifFnvInit is PTT's own starting value
func VerifFnvInit() uint32 { return fnv.PttFnv32Init }
