package crypto

// VerifIncrementNonce is the step from one chunk's nonce to the next.
var VerifIncrementNonce func(*[24]byte) error = incrementNonce
