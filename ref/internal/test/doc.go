// Package test provides testing utilities.
package test
