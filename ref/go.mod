module github.com/mmcloughlin/addchain

go 1.16

require (
	github.com/google/subcommands v1.2.0
	github.com/mmcloughlin/profile v0.1.1
)
