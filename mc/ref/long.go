package ref

// IntText is the signed coefficient of n.
func IntText(n Num) string {
	s := n.C.String()
	if n.Neg && n.C.Sign() != 0 {
		s = "-" + s
	}
	return s
}
