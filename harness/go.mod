module verif.local/harness

go 1.21

require (
	github.com/dchest/bcrypt_pbkdf v0.0.0-20150205184540-83f37f9c154a
	github.com/kisom/psignify v0.0.0
	golang.org/x/crypto v0.0.0-20190530122614-20be4c3c3ed5
)

require golang.org/x/sys v0.0.0-20190412213103-97732733099d // indirect

replace github.com/kisom/psignify => /repo
