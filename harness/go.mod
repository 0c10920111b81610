module goselectverif

go 1.12

require (
	github.com/davidkleiven/goselect v0.0.0
	gonum.org/v1/gonum v0.6.0
	gonum.org/v1/plot v0.0.0-20191107103940-ca91d9d40d0a
)

replace github.com/davidkleiven/goselect => /repo
