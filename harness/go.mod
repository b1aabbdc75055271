module verif

go 1.23

godebug default=go1.21

require (
	github.com/mutecomm/mute v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/cihub/seelog v0.0.0-20151216151435-d2c6e5aa9fbf // indirect
	github.com/fatih/structs v1.0.0 // indirect
	github.com/frankbraun/codechain v0.0.0-20180527071116-4cc528be23cf // indirect
	github.com/go-sql-driver/mysql v1.3.0 // indirect
	github.com/gorilla/rpc v1.1.0 // indirect
	github.com/jpillora/backoff v0.0.0-20170918002102-8eab2debe79d // indirect
	github.com/mattn/go-runewidth v0.0.2 // indirect
	github.com/mutecomm/go-sqlcipher/v4 v4.4.0 // indirect
	github.com/peterh/liner v1.0.1-0.20180504030148-80ce870644db // indirect
	github.com/ronperry/cryptoedge v0.0.0-20150815114006-cc363e290743 // indirect
	github.com/urfave/cli v1.20.0 // indirect
	golang.org/x/crypto v0.0.0-20180527072434-ab813273cd59 // indirect
	golang.org/x/net v0.0.0-20190225153610-fe579d43d832 // indirect
	golang.org/x/sys v0.0.0-20180525142821-c11f84a56e43 // indirect
)

replace github.com/mutecomm/mute => /repo
