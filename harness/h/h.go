// Package h holds the property harnesses: each function takes symbolic inputs
// from package v, runs the real code and asserts one property.
package h
