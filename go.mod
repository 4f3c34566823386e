module verif

go 1.22

require github.com/go-restruct/restruct v0.0.0

require github.com/pkg/errors v0.8.1 // indirect

replace github.com/go-restruct/restruct => /repo
