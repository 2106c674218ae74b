package nd

// What the symbolic engine runs in place of fmt where an argument is symbolic.
// Never called natively.

// TryFormat is fmt.Sprintf where the engine can tell what it gives.
func TryFormat(format string, a []interface{}) (string, bool) { return "", false }

// Opaque is text nothing is known about.
func Opaque() string { return "" }

// Sprintf is fmt.Sprintf.
func Sprintf(format string, a ...interface{}) string {
	if s, ok := TryFormat(format, a); ok {
		return s
	}
	out := ""
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out += format[i : i+1]
			continue
		}
		j := i + 1
		for j < len(format) && flag(format[j]) {
			j++
		}
		if j == len(format) {
			return Opaque()
		}
		if format[j] == '%' {
			out += "%"
			i = j
			continue
		}
		if n >= len(a) {
			return Opaque()
		}
		s, ok := TryFormat(format[i:j+1], a[n:n+1])
		if !ok {
			s, ok = piece(format[i+1:j], format[j], a[n])
		}
		if !ok {
			return Opaque()
		}
		out += s
		n++
		i = j
	}
	if n != len(a) {
		return Opaque()
	}
	return out
}

func flag(b byte) bool {
	return b >= '0' && b <= '9' || b == '+' || b == '-' || b == '#' || b == ' ' || b == '.'
}

// piece formats one argument.
func piece(flags string, verb byte, a interface{}) (string, bool) {
	neg, n, isInt := integer(a)
	if isInt {
		s := ""
		switch verb {
		case 'd', 'v':
			s = digits(n, 10)
		case 'x':
			s = digits(n, 16)
		case 'o':
			s = digits(n, 8)
		case 'b':
			s = digits(n, 2)
		default:
			return "", false
		}
		zero := false
		if len(flags) > 0 && flags[0] == '0' {
			zero, flags = true, flags[1:]
		}
		width, ok := number(flags)
		if !ok || neg && zero {
			return "", false
		}
		if neg {
			s = "-" + s
		}
		for len(s) < width {
			if zero {
				s = "0" + s
			} else {
				s = " " + s
			}
		}
		return s, true
	}
	s, ok := plain(a)
	if !ok {
		return "", false
	}
	switch verb {
	case 's', 'v':
	case 'q':
		t := "\""
		for i := 0; i < len(s); i++ {
			c := s[i]
			switch {
			case c >= 0x80:
				return "", false
			case c == '"':
				t += "\\\""
			case c == '\\':
				t += "\\\\"
			case c >= ' ' && c < 0x7f:
				t += s[i : i+1]
			case c >= 7 && c <= 13:
				t += "\\" + named(c)
			default:
				t += "\\x" + digit(uint64(c/16)) + digit(uint64(c%16))
			}
		}
		s = t + "\""
	case 'x':
		t := ""
		for i := 0; i < len(s); i++ {
			t += digit(uint64(s[i]/16)) + digit(uint64(s[i]%16))
		}
		s = t
	default:
		return "", false
	}
	if flags == "" {
		return s, true
	}
	if flags[0] != '.' {
		return "", false
	}
	most, ok := number(flags[1:])
	if !ok {
		return "", false
	}
	n2 := 0
	for i := range s {
		if n2 == most {
			return s[:i], true
		}
		n2++
	}
	return s, true
}

func number(s string) (int, bool) {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = 10*n + int(s[i]-'0')
	}
	return n, true
}

// plain is what %s makes of a value.
func plain(a interface{}) (string, bool) {
	switch x := a.(type) {
	case string:
		return x, true
	case []byte:
		return string(x), true
	case error:
		return x.Error(), true
	case interface{ String() string }:
		return x.String(), true
	}
	return "", false
}

// integer is the sign and the size of an integer.
func integer(a interface{}) (bool, uint64, bool) {
	switch a.(type) {
	case error, interface{ String() string }:
		return false, 0, false
	}
	n := int64(0)
	switch x := a.(type) {
	case int:
		n = int64(x)
	case int8:
		n = int64(x)
	case int16:
		n = int64(x)
	case int32:
		n = int64(x)
	case int64:
		n = x
	case uint:
		return false, uint64(x), true
	case uint8:
		return false, uint64(x), true
	case uint16:
		return false, uint64(x), true
	case uint32:
		return false, uint64(x), true
	case uint64:
		return false, x, true
	case uintptr:
		return false, uint64(x), true
	default:
		return false, 0, false
	}
	if n < 0 {
		return true, uint64(-n), true
	}
	return false, uint64(n), true
}

func digit(d uint64) string {
	b := byte(d) + '0'
	if d > 9 {
		b = byte(d) - 10 + 'a'
	}
	return string([]byte{b})
}

func digits(n uint64, base uint64) string {
	s := ""
	for {
		s = digit(n%base) + s
		n /= base
		if n == 0 {
			return s
		}
	}
}

// Sprint is fmt.Sprint.
func Sprint(a ...interface{}) string {
	out := ""
	for i := range a {
		_, isText := a[i].(string)
		if i > 0 && !isText {
			if _, was := a[i-1].(string); !was {
				out += " "
			}
		}
		s := Sprintf("%v", a[i])
		out += s
	}
	return out
}

// Sprintln is fmt.Sprintln.
func Sprintln(a ...interface{}) string {
	out := ""
	for i := range a {
		if i > 0 {
			out += " "
		}
		out += Sprintf("%v", a[i])
	}
	return out + "\n"
}

func named(c byte) string {
	switch c {
	case 7:
		return "a"
	case 8:
		return "b"
	case 9:
		return "t"
	case 10:
		return "n"
	case 11:
		return "v"
	case 12:
		return "f"
	}
	return "r"
}
