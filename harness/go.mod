module github.com/unidoc/unitype/vpharness

go 1.18

require (
	github.com/sirupsen/logrus v1.9.3
	github.com/unidoc/unitype v0.5.1
	github.com/unidoc/unitype/truecli v0.0.0
)

require (
	github.com/inconshreveable/mousetrap v1.1.0 // indirect
	github.com/spf13/cobra v1.8.1 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	golang.org/x/sys v0.29.0 // indirect
	golang.org/x/text v0.21.0 // indirect
)

replace github.com/unidoc/unitype => /repo

replace github.com/unidoc/unitype/truecli => /repo/truecli
