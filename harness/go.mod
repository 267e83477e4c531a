module verifharness

go 1.26.0

require (
	github.com/Allenxuxu/gev v0.0.0
	github.com/Allenxuxu/ringbuffer v0.0.11
	github.com/RussellLuo/timingwheel v0.0.0-20201029015908-64de9d088c74
	github.com/anishathalye/porcupine v1.3.1
	github.com/gobwas/httphead v0.0.0-20180130184737-2c6c146eadee
	golang.org/x/sys v0.0.0-20201214210602-f9fddec55a1e
)

require (
	github.com/Allenxuxu/toolkit v0.0.1 // indirect
	github.com/gobwas/pool v0.2.0 // indirect
	github.com/libp2p/go-reuseport v0.0.1 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/Allenxuxu/gev => /repo
