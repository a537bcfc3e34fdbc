module verif/harness

go 1.20

require (
	github.com/suapapa/go_hangul v0.0.0
	golang.org/x/text v0.14.0
)

replace github.com/suapapa/go_hangul => /repo
