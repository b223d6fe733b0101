module gpsverif

go 1.23

require (
	github.com/mmadfox/go-gpsgen v0.0.0
	google.golang.org/protobuf v1.30.0
)

replace github.com/mmadfox/go-gpsgen => /repo
