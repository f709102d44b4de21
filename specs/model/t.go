package t

import "io/fs"

// Models of higher-order standard library functions, executed by the verifier
// in place of the library code. A walk is a sequence of visits without error,
// and possibly a last visit that reports one.

func verifWalkN(f fs.FS, root string) int                { panic("model") }
func verifWalkPath(f fs.FS, root string, i int) string     { panic("model") }
func verifWalkEnt(f fs.FS, root string, i int) fs.DirEntry { panic("model") }
func verifWalkErr(f fs.FS, root string) error              { panic("model") }
func verifWalkLast(f fs.FS, root string) string            { panic("model") }
func verifWalkLastEnt(f fs.FS, root string) fs.DirEntry    { panic("model") }

func verifWalkDir(f fs.FS, root string, fn fs.WalkDirFunc) error {
	n := verifWalkN(f, root)
	for i := 0; i < n; i++ {
		if err := fn(verifWalkPath(f, root, i), verifWalkEnt(f, root, i), nil); err != nil {
			return err
		}
	}
	if err := verifWalkErr(f, root); err != nil {
		return fn(verifWalkLast(f, root), verifWalkLastEnt(f, root), err)
	}
	return nil
}
