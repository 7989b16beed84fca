module verif/harness

go 1.27

require github.com/ixtendio/gofre v0.0.0

replace github.com/ixtendio/gofre => /repo
