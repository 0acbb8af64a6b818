package interp

type dbWorld struct{}
