//go:build inpkgnonce

package main

import "github.com/kisom/psignify/crypto"

func init() { incrementNonce = crypto.VerifIncrementNonce }
