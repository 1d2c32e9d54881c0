package main

import (
	"go/ast"
	"go/token"
)

func (x *Exec) ioCall(a *act, key string, args []Value, st *State, e *ast.CallExpr, k K) bool {
	return false
}

var _ token.Pos
