module verifharness

go 1.25

require github.com/lesismal/arpc v0.0.0

replace github.com/lesismal/arpc => /repo
