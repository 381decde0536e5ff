package main

import (
	"go/ast"
	"reflect"
)

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// walk replaces, bottom up, every expression and statement below n.
func walk(n ast.Node, fe func(ast.Expr) ast.Expr, fs func(ast.Stmt) ast.Stmt) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		ft := v.Type().Field(i)
		if ft.Type == reflect.TypeOf((*ast.Object)(nil)) || ft.Type == reflect.TypeOf((*ast.Scope)(nil)) {
			continue
		}
		field(f, fe, fs)
	}
}

func field(f reflect.Value, fe func(ast.Expr) ast.Expr, fs func(ast.Stmt) ast.Stmt) {
	switch f.Kind() {
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			field(f.Index(i), fe, fs)
		}
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		n, ok := f.Interface().(ast.Node)
		if !ok {
			return
		}
		walk(n, fe, fs)
		switch f.Type() {
		case exprT:
			f.Set(reflect.ValueOf(fe(n.(ast.Expr))))
		case stmtT:
			f.Set(reflect.ValueOf(fs(n.(ast.Stmt))))
		}
	case reflect.Pointer:
		if f.IsNil() || !f.Type().Implements(nodeT) {
			return
		}
		walk(f.Interface().(ast.Node), fe, fs)
	}
}
