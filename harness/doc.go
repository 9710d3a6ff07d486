// Package verif runs the real gozwave code for the checks in /verif.
package verif
