module hv

go 1.13

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/lyraproj/dgo v0.4.4
	github.com/lyraproj/dgoyaml v0.4.4
	github.com/lyraproj/hiera v0.0.0
	github.com/lyraproj/hierasdk v0.4.4
	github.com/sirupsen/logrus v1.4.2
	gopkg.in/yaml.v3 v3.0.0-20200121175148-a6ecf24a6d71
)

replace github.com/lyraproj/hiera => /repo
