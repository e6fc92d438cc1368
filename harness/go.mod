module verif/harness

go 1.19

require (
	github.com/tc-hib/winres v0.0.0
	golang.org/x/image v0.12.0
)

require github.com/nfnt/resize v0.0.0-20180221191011-83c6a9932646 // indirect

replace github.com/tc-hib/winres => /repo
