// Package rec runs the serial recorder over scripted ports.
package rec
