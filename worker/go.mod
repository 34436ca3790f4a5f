module unlynxsim

go 1.18

require (
	github.com/fanliao/go-concurrentMap v0.0.0-20141114143905-7d2d7a5ea67b
	github.com/ldsec/unlynx v0.0.0
	go.dedis.ch/kyber/v3 v3.0.12
	go.dedis.ch/onet/v3 v3.2.0
	go.dedis.ch/protobuf v1.0.11
	golang.org/x/xerrors v0.0.0-20191204190536-9bdfabe68543
)

replace github.com/ldsec/unlynx => ../.build/unlynx
