//go:build inpkg

package main

import "github.com/kisom/psignify/crypto"

func init() { innerSeal, innerOpen = crypto.VerifSeal, crypto.VerifOpen }
