module verifharness

go 1.27

require (
	github.com/NodeBoy2/rtspclient v0.0.0
	github.com/gorilla/websocket v1.4.0
)

require github.com/pkg/errors v0.9.1 // indirect

replace github.com/NodeBoy2/rtspclient => /repo
