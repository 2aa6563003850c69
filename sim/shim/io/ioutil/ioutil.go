// Package ioutil puts the simulated disk behind the io/ioutil API.
package ioutil

import (
	"io/fs"
	"syscall"

	"github.com/DyCAPSTeam/DyCAPS/internal/verifsim/shim/os"
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return dir + "/" + pattern, nil }
func ReadDir(string) ([]fs.FileInfo, error)          { return nil, syscall.ENOSYS }
