module verif/harness

go 1.23.0

require (
	github.com/ProtonMail/go-crypto v1.0.0
	github.com/klauspost/compress v1.17.8
	github.com/sassoftware/go-rpmutils v0.0.0
	github.com/ulikunitz/xz v0.5.12
	golang.org/x/sys v0.28.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/DataDog/zstd v1.5.5 // indirect
	github.com/cloudflare/circl v1.3.8 // indirect
	golang.org/x/crypto v0.31.0 // indirect
)

replace github.com/sassoftware/go-rpmutils => /repo
