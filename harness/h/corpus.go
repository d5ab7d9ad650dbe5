package h

// Texts of the grammar, words separated by blanks, one per construct. The
// harnesses replace, insert and remove words in them.

var exprTexts = []string{
	"a + b * c - d",
	"not a and b or c xor d",
	"- a + 1 = b",
	"a < b",
	"a in [ 1 , 3 .. 5 , b ]",
	"[ ]",
	"( a + b ) * c div d mod e",
	"f ( a , b + 1 ) . x [ i , j ] ^",
	"f ( a , b + 1 )",
	"a . b ^ . c [ 1 ] [ 2 ]",
	"@ a . b",
	"x as T",
	"x is T",
	"Integer ( x ) + 1",
	"'s' + t",
	"1.5 / 2",
	"nil",
	"true and false",
	"a shl 2 shr b",
	"a >= b <> c <= d > e",
	"f ( g ( x ) , [ a ] , ( b ) )",
}

var stmtTexts = []string{
	"a := b + 1",
	"f ( a , b )",
	"f ( )",
	"f",
	"a . b [ 1 ] ^ := c",
	"begin a ; b := 1 ; ; c ( 2 ) end",
	"if a then b else c",
	"if a then if b then c else d",
	"if a then begin b end else begin c ; end",
	"case a of 1 : b ; 2 , 3 .. 4 : c := 1 else d ; e end",
	"case a of 1 : b end",
	"case a of 1 : ; 2 : begin end ; end",
	"repeat a ; b until c = d",
	"while a do b",
	"for i := 1 to 10 do a ( i )",
	"for i := a downto b do begin end",
	"with a , b do c",
	"try a ; b except c end",
	"try a except on E : T do b ; on Integer do c else d end",
	"try a except on Integer do b ; end",
	"try a finally b ; c end",
	"begin raise ; a end",
	"raise a",
	"raise a at b",
	"inherited",
	"asm mov eax end",
	"begin end",
	"begin goto l ; end",
	"while a do repeat b until c",
}

var typeTexts = []string{
	"type T = Integer ;",
	"type T = string ; U = string [ 10 ] ;",
	"type T = ( a , b , c = 5 ) ; U = a .. b ;",
	"type T = 1 .. 10 ;",
	"type T = ^ U ; U = record x : T ; end ;",
	"type T = array [ 1 .. 2 , Byte ] of Integer ;",
	"type T = array of U ; U = Char ;",
	"type T = packed array [ Boolean ] of string ;",
	"type T = set of Byte ; U = set of ( x , y ) ;",
	"type T = file of Integer ;",
	"type T = record a , b : Integer ; c : record d : Char end ; end ;",
	"type T = packed record case k : Integer of 1 : ( a : Char ; ) ; 2 , 3 : ( b : Byte ; c : Word ) ; end ;",
	"type T = record case Byte of 1 : ( ) ; 2 : ( case Char of 'a' : ( x : Byte ) ) ; end ;",
	"type T = procedure ; U = function ( a : Integer ) : Byte ; V = procedure ( var x ; const y : Char ) of object ;",
	"type T = type Integer platform ;",
	"type T = class ; U = class x : T ; end ; T = class ( U ) end ;",
	"type T = class of TObject ;",
}

var classTexts = []string{
	"type T = class a , b : Integer ; c : Char ; end ;",
	"type T = class private a : Integer ; procedure p ; public function f ( x : Integer ) : Byte ; virtual ; property q : Byte read f ; end ;",
	"type T = class constructor Create ( a : Integer ) ; destructor Destroy ; override ; end ;",
	"type T = class a : Byte ; property p : Byte read a write a stored true default 1 ; end ; U = class ( T ) property p ; end ;",
	"type T = class private a : Byte ; end ; U = class ( T ) protected b : Byte ; published property x : Byte index 3 read b write b nodefault ; end ;",
	"type T = class function g ( i : Integer ) : Char ; procedure s ( i : Integer ; v : Char ) ; property x [ i : Integer ] : Char read g write s ; end ;",
	"type T = class ( U , V ) ; U = Integer ;",
	"type T = class public procedure p ; overload ; procedure p ( x : Char ) ; overload ; private z : T ; end ;",
	"type T = class property x : Byte implements I ; end ;",
}

var declTexts = []string{
	"const a = 1 ; b : Integer = 2 + a ;",
	"const c = 'x' ; d = ( 3 ) ;",
	"var a , b : Integer ; c : string = 's' ;",
	"var a : Integer ; b : Byte absolute a ;",
	"threadvar a : Integer ; b , c : Char ;",
	"label l ; var a : Integer ;",
	"procedure p ; begin end ;",
	"procedure p ( a , b : Integer ; var c : Char ; const d ; out e : Byte = 1 ) ; begin a := b end ;",
	"function f ( x : array of Integer ; y : array of const ) : string ; stdcall ; begin f := 1 end ;",
	"procedure p ; forward ; procedure p ; begin end ;",
	"procedure p ; external 'a.dll' name 'q' ;",
	"procedure p ; external 'a.dll' index 3 ; var a : Byte ;",
	"procedure p ; cdecl ; external ;",
	"procedure p ; var a : Integer ; procedure q ; begin a := 1 end ; begin q end ;",
	"function f : Integer ; asm mov end ;",
	"type T = Integer ; var a : T ; const b = 1 ; procedure p ( x : T ) ; begin a := x + b end ;",
}

var programTexts = []string{
	"program p ; begin end .",
	"program p ; var a : Integer ; begin a := 1 end .",
	"program p ; uses a , b ; const c = 1 ; begin x ( c ) end .",
	"program p ; procedure q ; begin end ; exports q name 'z' index 1 ; begin end .",
	"program p ; begin end exports a , b index 2 ; .",
	"program p ; label l ; begin l : a ; goto l ; end .",
	"program p ; asm nop end .",
}

var unitTexts = []string{
	"unit u ; interface implementation end .",
	"unit u ; interface uses a , b ; implementation uses c ; end .",
	"unit u ; interface type T = Integer ; var a : T ; const b = 1 ; procedure p ( x : T ) ; function f : T ; stdcall ; implementation procedure p ( x : T ) ; begin a := x end ; function f : T ; begin f := b end ; end .",
	"unit u platform ; interface implementation var a : Integer ; initialization a := 1 ; finalization a := 0 end .",
	"unit u ; interface threadvar a : Byte ; implementation initialization b end .",
	"unit u ; interface type T = class ; V = class x : T end ; T = class end ; implementation const a = 1 ; exports q ; end .",
	"unit u ; interface const a = 1 ; type T = Byte ; var b : u . T ; implementation const c = u . a ; initialization u . b := a end .",
}

// words that mean something to the grammar somewhere
var vocabulary = []string{
	"a", "b", "u", "T", "1", "2.5", "'s'", "+", "-", "*", "=", "<>", ":=", ".", "..", ",", ";", ":", "(", ")", "[", "]", "^", "@",
	"begin", "end", "if", "then", "else", "case", "of", "while", "do", "for", "to", "repeat", "until", "with", "try", "except", "finally",
	"goto", "raise", "inherited", "asm", "nil", "not", "and", "or", "div", "in", "is", "as",
	"label", "const", "type", "var", "threadvar", "procedure", "function", "constructor", "destructor", "property", "class", "record", "array", "set", "file", "string",
	"packed", "object", "program", "unit", "uses", "interface", "implementation", "initialization", "finalization", "exports", "out",
	"private", "public", "on", "at", "read", "write", "index", "name", "stored", "default", "nodefault", "implements",
	"forward", "external", "overload", "virtual", "absolute", "platform", "true", "Integer", "#", "&", "/",
}

var (
	plainDeclTexts = append(append([]string{}, declTexts[:6]...), declTexts[15])
	routineTexts   = declTexts[6:]
)
