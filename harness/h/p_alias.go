package h

import "tpharness/sv"

// Texts in which every "?" is any one-letter name: whatever names coincide
// (declared, used, unit and label names), the tree has the shape of the text.

var aliasExprs = []scoped{
	{eBlock, "var ? : Byte ; begin ? := ? + ? ( ? ) * ? [ ? , ? ] end"},
	{eBlock, "const ? = ? ; type ? = Byte ; var ? : ? ; begin ? := ? ( ? ) end"},
	{eProgram, "program pp ; uses ? ; const ? = 1 ; begin ? := ? . ? ( ? ) + ? end ."},
	{eProgram, "program pp ; uses ? ; begin aa := ? ^ . ? [ ? ] end ."},
	{eExpr, "? . ? . ? ^ [ ? ]"},
	{eExpr, "[ ? , ? .. ? , ? ]"},
	{eExpr, "not ? and ( ? or - ? ) = @ ?"},
	{eExpr, "? ( ? , ? ( ? ) , ? )"},
}

var aliasStmts = []scoped{
	{eBlock, "label ? ; var ? : Byte ; begin ? : ? ; goto ? ; ? ( ? ) end"},
	{eBlock, "var ? , ? : Byte ; begin case ? of ? , ? .. ? : ? ; ? : ? else ? end end"},
	{eBlock, "begin try ? except on ? : ? do ? ; on ? do ? else ? end end"},
	{eBlock, "var ? : Byte ; begin for ? := ? to ? do ? ; with ? , ? do ? := ? end"},
	{eBlock, "const ? = 1 ; procedure ? ; begin end ; begin if ? then ? else ? ; repeat ? until ? end"},
	{eProgram, "program ? ; uses ? ; label ? ; begin ? : ? . ? := ? ; raise ? at ? end ."},
	{eBlock, "label ? ; procedure pp ; begin ? : ? ; inherited ; ? := ? end ; begin end"},
	{eUnit, "unit ? ; interface uses ? ; implementation initialization ? ; ? . ? finalization ? := ? end ."},
}

var aliasDecls = []scoped{
	{eUnit, "unit ? ; interface uses ? ; type ? = record case ? : Byte of 1 : ( ? : Char ) end ; implementation end ."},
	{eUnit, "unit uu ; interface uses ? ; var ? , ? : Byte = ? ; ? : Word absolute ? ; implementation end ."},
	{eUnit, "unit uu ; interface uses ? ; type ? = ( ? , ? ) ; ? = ? .. ? ; implementation end ."},
	{eBlock, "type ? = record ? , ? : Byte ; ? : Char ; case ? : Byte of ? , ? : ( ? : Byte ) end ; begin end"},
	{eBlock, "type ? = record case Byte of ? : ( ) ; ? : ( ? : Byte ; case ? : Char of ? : ( ) ) end ; begin end"},
	{eBlock, "type ? = array [ Boolean , ? .. ? ] of Byte ; ? = set of ( ? , ? ) ; ? = ? ; begin end"},
	{eBlock, "const ? = ? ; ? : Byte = ? ; var ? : Byte absolute ? ; threadvar ? , ? : Char ; label ? ; begin end"},
	{eBlock, "const ? : record ? : Byte ; ? : Char end = ( ? : 1 ; ? : 2 ) ; begin end"},
	{eBlock, "const ? : array [ 0 .. 1 ] of Byte = ( ? , ? ) ; var ? : Byte = ? ; begin end"},
	{eBlock, "type ? = procedure ( ? , ? : Byte ; var ? ; const ? : Char ) ; ? = function ( ? : Byte ) : ? of object ; begin end"},
	{eBlock, "type ? = ^ ? ; ? = string [ ? ] ; ? = file of ? ; ? = packed array of ? ; begin end"},
}

var aliasClasses = []scoped{
	{eTypes, "type ? = class ? , ? : Byte ; ? : Char ; procedure ? ; end ;"},
	{eTypes, "type ? = class procedure ? ( ? : Byte ) ; function ? : Byte ; constructor ? ( ? : Byte ) ; destructor ? ; end ;"},
	{eTypes, "type ? = class private ? : Byte ; public ? : Char ; published ? : Byte ; end ;"},
	{eTypes, "type ? = class ? : Byte ; property ? : Byte read ? write ? ; end ;"},
	{eTypes, "type ? = class ? : Byte ; property ? [ ? : Byte ] : Byte ; property ? : Char ; end ;"},
	{eTypes, "type ? = class ; ? = class ( ? ) ? : Byte ; end ; ? = class of ? ;"},
	{eTypes, "type ? = class ( Byte ) end ; ? = class procedure ? ( ? , ? : Byte ; ? : Char ) ; virtual ; end ;"},
	{eUnit, "unit uu ; interface uses ? ; type ? = class ? : Byte ; property ? : Char read ? ; end ; implementation end ."},
}

var aliasRoutines = []scoped{
	{eBlock, "procedure ? ( ? , ? : Byte ; var ? ; const ? : Char = ? ) ; begin end ; begin end"},
	{eBlock, "function ? ( ? : Byte ) : ? ; forward ; function ? ( ? : Byte ) : ? ; begin end ; begin end"},
	{eBlock, "procedure ? ; external ? name ? ; procedure ? ; external 'x' index ? ; begin end"},
	{eBlock, "procedure ? ; procedure ? ; begin end ; procedure ? ; begin end ; begin end ; begin end"},
	{eProgram, "program ? ( ? , ? ) ; uses ? , ? ; exports ? , ? index ? ; begin end ."},
	{eProgram, "program ? ; uses ? , ? , ? ; begin ? end ."},
	{eUnit, "unit ? ; interface uses ? , ? ; procedure ? ; implementation uses ? , ? ; procedure ? ; begin end ; end ."},
	{eUnit, "unit ? ; interface const ? = 1 ; var ? : Byte ; implementation exports ? ; exports ? name 'x' ; end ."},
	{eUnit, "unit ? ; interface procedure ? ( ? : Byte ) ; function ? : Byte ; implementation procedure ? ( ? : Byte ) ; begin ? end ; function ? : Byte ; begin end ; end ."},
}

// P02_Alias: 8 texts full of expressions with up to 8 names, each any letter in either case.
// cover: accept
func P02_Alias() {
	e, t := anyNamed(aliasExprs)
	check(e, t, faithful)
}

// P03_Alias: 8 texts full of statements with up to 11 names, each any letter in either case.
// cover: accept
func P03_Alias() {
	e, t := anyNamed(aliasStmts)
	check(e, t, faithful)
}

// P04_Alias: 11 texts of declarations with up to 9 names, each any letter in either case.
// cover: accept
func P04_Alias() {
	e, t := anyNamed(aliasDecls)
	check(e, t, faithful)
}

// P05_Alias: 8 texts with classes with up to 7 names, each any letter in either case.
// cover: accept
func P05_Alias() {
	e, t := anyNamed(aliasClasses)
	check(e, t, faithful)
}

// P06_Alias: 9 programs, units and routines with up to 9 names, each any letter in either case.
// cover: accept
func P06_Alias() {
	e, t := anyNamed(aliasRoutines)
	check(e, t, faithful)
}

func anyAlias() (int, []rune) {
	lists := [][]scoped{aliasExprs, aliasStmts, aliasDecls, aliasClasses, aliasRoutines}
	return anyNamed(lists[sv.Concrete(sv.Int("list", 0, len(lists)-1))])
}

// W01_Alias: 44 texts with up to 11 names, each any letter in either case: the walk
// visits every identifier once, also where names coincide.
// cover: accept
func W01_Alias() {
	e, t := anyAlias()
	check(e, t, onWalk)
}

// T03_Alias: 44 texts with up to 11 names, each any letter in either case.
// cover: accept
func T03_Alias() {
	e, t := anyAlias()
	check(e, t, onPos)
}

// P01_Alias: 44 texts with up to 11 names, each any letter in either case: a tree
// or an error, never a crash.
func P01_Alias() {
	e, t := anyAlias()
	runReal(e, t)
}

// more scopes: every construct that opens one, left in every way it can end
var scopes2 = []scoped{
	{eBlock, "var ? : Byte ; begin try aa except on ? : Word do ? else ? end ; ? end"},
	{eBlock, "begin try aa except on ? : Word do ? ; on ? : Byte do ? ; else ? end ; ? end"},
	{eBlock, "begin try aa except on Word do ? ; on ? : Byte do begin ? end else begin ? end end ; ? end"},
	{eBlock, "begin try aa except on ? : Word do begin try bb except on ? : Byte do ? else ? end end else ? end end"},
	{eBlock, "begin if xx then try aa except on ? : Word do ? end else ? end"},
	{eBlock, "begin case xx of 1 : try aa except on ? : Word do ? end ; 2 : ? else ? end end"},
	{eBlock, "begin repeat try aa except on ? : Word do ? end ; ? until ? end"},
	{eBlock, "begin try try aa except on ? : Word do ? end finally ? end end"},
	{eBlock, "begin try aa except on ? : ? do raise ? at ? end end"},
	{eBlock, "begin try aa except on ? : Word do for ? := ? to ? do with ? do ? end end"},
	{eBlock, "var ? : Byte ; procedure pp ; forward ; procedure pp ; var ? : Byte ; begin ? end ; begin ? end"},
	{eBlock, "var ? : Byte ; procedure pp ( ? : Byte ) ; forward ; procedure qq ; begin ? end ; begin ? end"},
	{eBlock, "procedure pp ( ? : Byte ) ; external ; procedure qq ; begin ? end ; begin ? end"},
	{eBlock, "function ff ( ? : Byte ) : Byte ; function gg ( ? : Byte ) : Byte ; begin ff := ? ; gg := ? end ; begin ff := ? end ; begin ? end"},
	{eBlock, "procedure pp ; label ? ; const ? = 1 ; begin ? : ? end ; begin ? end"},
	{eBlock, "procedure pp ; type ? = ( ? , ? ) ; begin ? := ? end ; begin ? end"},
	{eBlock, "procedure pp ( ? : Byte ; ? : Byte ) ; const ? = 1 ; procedure qq ; begin ? := ? end ; begin ? end ; begin end"},
	{eBlock, "type ? = class procedure mm ( ? : Byte ) ; function nn ( ? : Byte ) : Byte ; constructor cc ( ? : Byte ) ; end ; var ? : Byte ; begin ? end"},
	{eBlock, "type tt = class property pp [ ? : Byte ; ? : Byte ] : Byte ; ? : Byte ; property qq [ ? : Byte ] : Byte ; end ; var ? : Byte ; begin ? end"},
	{eBlock, "type tt = procedure ( ? : Byte ) ; uu = function ( ? : Byte ) : Byte ; vv = procedure ( ? : Byte ) of object ; var ? : Byte ; begin ? end"},
	{eBlock, "type tt = record aa : procedure ( ? : Byte ) ; ? : Byte end ; var ? : Byte ; begin ? end"},
	{eBlock, "var vv : procedure ( ? : Byte ; ? : Word ) ; ? : Byte ; begin ? end"},
	{eBlock, "type ? = record ? : ( ? , ? ) ; case Byte of 1 : ( ? : set of ( ? ) ) end ; var ? : Byte ; begin ? end"},
	{eBlock, "const ? : ( ? , ? ) = ? ; begin ? end"},
	{eBlock, "procedure pp ( const ? : Byte ; var ? ; out ? : Char ) ; begin ? := ? end ; begin end"},
	{eUnit, "unit uu ; interface procedure pp ( ? : Byte ) ; var ? : Byte ; implementation procedure pp ( ? : Byte ) ; var ? : Byte ; begin ? end ; procedure qq ; begin ? end ; end ."},
	{eUnit, "unit uu ; interface type ? = class procedure mm ( ? : Byte ) ; end ; implementation var ? : Byte ; initialization try ? except on ? : Byte do ? else ? end ; ? end ."},
	{eUnit, "unit uu ; interface var ? : Byte ; implementation const ? = ? ; procedure pp ; begin ? end ; var ? : Byte ; initialization ? finalization ? end ."},
	{eProgram, "program pp ; const ? = 1 ; procedure qq ( ? : Byte ) ; begin try ? except on ? : Byte do ? else ? end end ; begin ? end ."},
}

// R01_Scopes: 29 more texts with up to 8 names, each any letter in either case:
// every construct that opens a scope, left in every way it can end.
// cover: accept
func R01_Scopes() {
	e, t := anyNamed(scopes2)
	check(e, t, onRefs|onAccept)
}

// R02_Scopes: as R01_Scopes; accepted exactly when no scope declares a name twice.
// cover: accept reject
func R02_Scopes() {
	e, t := anyNamed(scopes2)
	check(e, t, onReject|onAccept)
}
