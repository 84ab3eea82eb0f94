// Errors of package parser.
package parser

global C15,C16,C17 ErrNotDouble != nil && ErrNotInt != nil && ErrNotUint != nil && ErrNotBool != nil && ErrNotString != nil && ErrNotBytes != nil
global C15,C16,C17 ErrNotDouble != io.EOF && ErrNotInt != io.EOF && ErrNotUint != io.EOF && ErrNotBool != io.EOF && ErrNotString != io.EOF && ErrNotBytes != io.EOF
