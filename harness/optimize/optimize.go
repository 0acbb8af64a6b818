// Package optimize stands in for gonum's package: the harness decides what the minimiser returns.
package optimize

import "gonum.org/v1/gonum/optimize"

type (
	Problem          = optimize.Problem
	Result           = optimize.Result
	Settings         = optimize.Settings
	Location         = optimize.Location
	Method           = optimize.Method
	Stats            = optimize.Stats
	Status           = optimize.Status
	Converger        = optimize.Converger
	FunctionConverge = optimize.FunctionConverge
	NeverTerminate   = optimize.NeverTerminate
	Newton           = optimize.Newton
	BFGS             = optimize.BFGS
	LBFGS            = optimize.LBFGS
	CG               = optimize.CG
	GradientDescent  = optimize.GradientDescent
	NelderMead       = optimize.NelderMead
	GuessAndCheck    = optimize.GuessAndCheck
	ListSearch       = optimize.ListSearch
	CmaEsChol        = optimize.CmaEsChol
	Linesearcher     = optimize.Linesearcher
	Backtracking     = optimize.Backtracking
	Bisection        = optimize.Bisection
	MoreThuente      = optimize.MoreThuente
	Recorder         = optimize.Recorder
	Printer          = optimize.Printer
)

const (
	NotTerminated     = optimize.NotTerminated
	Success           = optimize.Success
	FunctionThreshold = optimize.FunctionThreshold
	GradientThreshold = optimize.GradientThreshold
	Failure           = optimize.Failure
	IterationLimit    = optimize.IterationLimit
)

// Hook answers calls of Minimize.
var Hook func(p Problem, x []float64, s *Settings, m Method) (*Result, error)

// Minimize asks the hook.
func Minimize(p Problem, x []float64, s *Settings, m Method) (*Result, error) {
	return Hook(p, x, s, m)
}
