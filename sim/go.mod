module verif.local/sim

go 1.23.0

require (
	github.com/hansthienpondt/nipam v0.0.5
	github.com/henderiw/idxtable v0.0.0
	go4.org/netipx v0.0.0-20231129151722-fdeea329fbba
	k8s.io/apimachinery v0.31.0
)

require (
	github.com/go-logr/logr v1.4.2 // indirect
	github.com/kentik/patricia v1.2.0 // indirect
	k8s.io/klog/v2 v2.130.1 // indirect
	k8s.io/utils v0.0.0-20240711033017-18e509b52bc8 // indirect
)

replace github.com/henderiw/idxtable => /repo
