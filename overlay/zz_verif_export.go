package goast

// VerifNewTrie is added to the package by a build overlay (see /verif/build.sh): it lets the check of C18
// reach the unexported trie. Nothing of this is in /repo.
func VerifNewTrie(set map[string]int) any { return newTrie(set) }
