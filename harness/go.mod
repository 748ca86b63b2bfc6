module kmverif

go 1.23

godebug default=go1.21

require (
	github.com/google/uuid v1.5.0
	github.com/jimsnab/go-lane v1.10.1
	github.com/jimsnab/kafka-mock-go v0.0.0
	github.com/segmentio/kafka-go v0.4.47
	github.com/anishathalye/porcupine v1.3.1
	pgregory.net/rapid v1.3.0
)

require (
	github.com/klauspost/compress v1.17.4 // indirect
	github.com/pierrec/lz4/v4 v4.1.21 // indirect
)

replace github.com/jimsnab/kafka-mock-go => /repo
