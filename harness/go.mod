module verif

go 1.25

require github.com/innerr/ticat v0.0.0

require (
	github.com/mattn/go-runewidth v0.0.3 // indirect
	github.com/mattn/go-shellwords v1.0.11 // indirect
	github.com/peterh/liner v1.2.1 // indirect
)

replace github.com/innerr/ticat => /repo
