module vlverif/harness

go 1.13

require github.com/VolantMQ/vlapi v0.0.0

replace github.com/VolantMQ/vlapi => /repo
