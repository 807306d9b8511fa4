module verif/harness

go 1.23

require (
	github.com/Ptt-official-app/go-bbs v0.0.0
	github.com/golang-jwt/jwt v3.2.2+incompatible
	golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f
	golang.org/x/text v0.3.8
	pgregory.net/rapid v1.3.0
)

replace github.com/Ptt-official-app/go-bbs => /repo
