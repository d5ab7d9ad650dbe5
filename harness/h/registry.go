// Code generated by tools/genreg.py. DO NOT EDIT.

package h

// Registry maps harness names to functions for native replay.
var Registry = map[string]func(){
	"A01X_Expressions": A01X_Expressions,
	"A01X_Sections": A01X_Sections,
	"A01X_Statements": A01X_Statements,
	"A01X_Types": A01X_Types,
	"A01_Expressions": A01_Expressions,
	"A01_Headings": A01_Headings,
	"A01_Names": A01_Names,
	"A01_Optional": A01_Optional,
	"A01_Sections": A01_Sections,
	"A01_Statements": A01_Statements,
	"A01_Types": A01_Types,
	"B01_Expressions": B01_Expressions,
	"B01_Names": B01_Names,
	"B01_Parameters": B01_Parameters,
	"B01_Parts": B01_Parts,
	"B01_Types": B01_Types,
	"C01X_Chain": C01X_Chain,
	"C01_Ancestor": C01_Ancestor,
	"C01_Between": C01_Between,
	"C01_Big": C01_Big,
	"C01_Chain": C01_Chain,
	"C01_Inherit": C01_Inherit,
	"C01_Members": C01_Members,
	"C01_Names": C01_Names,
	"C01_Own": C01_Own,
	"C01_Three": C01_Three,
	"D01X_Chain": D01X_Chain,
	"D01X_Qualified": D01X_Qualified,
	"D01_Alias": D01_Alias,
	"D01_Big": D01_Big,
	"D01_Chain": D01_Chain,
	"D01_Direct": D01_Direct,
	"D01_Names": D01_Names,
	"D01_Places": D01_Places,
	"D01_Qualified": D01_Qualified,
	"D01_Vars": D01_Vars,
	"E01X_TwoWords": E01X_TwoWords,
	"E01_Big": E01_Big,
	"E01_Chars": E01_Chars,
	"E01_Exchanged": E01_Exchanged,
	"E01_Files": E01_Files,
	"E01_Mutated": E01_Mutated,
	"F01_Big": F01_Big,
	"F01_Forward": F01_Forward,
	"F01_Many": F01_Many,
	"F01_Names": F01_Names,
	"G01_Message": G01_Message,
	"G01_Names": G01_Names,
	"G01_Parse": G01_Parse,
	"G01_Stack": G01_Stack,
	"I01X_Mutated": I01X_Mutated,
	"I01_After": I01_After,
	"I01_All": I01_All,
	"I01_Apart": I01_Apart,
	"I01_Between": I01_Between,
	"I01_Names": I01_Names,
	"I01_Orders": I01_Orders,
	"I01_Symbols": I01_Symbols,
	"I01_TextOrders": I01_TextOrders,
	"I01_Times": I01_Times,
	"K01_Equal": K01_Equal,
	"K01_List": K01_List,
	"K01_Predicates": K01_Predicates,
	"K01_Set": K01_Set,
	"K01_Token": K01_Token,
	"L01X_Two": L01X_Two,
	"L01_Bytes": L01_Bytes,
	"L01_Long": L01_Long,
	"L01_Program": L01_Program,
	"L01_Two": L01_Two,
	"L01_Unit": L01_Unit,
	"P01X_Cut": P01X_Cut,
	"P01X_Start": P01X_Start,
	"P01X_TwoWords": P01X_TwoWords,
	"P01_Alias": P01_Alias,
	"P01_Any": P01_Any,
	"P01_Chars": P01_Chars,
	"P01_Cut": P01_Cut,
	"P01_Deep": P01_Deep,
	"P01_Exchanged": P01_Exchanged,
	"P01_Files": P01_Files,
	"P01_Long": P01_Long,
	"P01_Mutated": P01_Mutated,
	"P01_Start": P01_Start,
	"P02X_Chain": P02X_Chain,
	"P02X_Generated": P02X_Generated,
	"P02X_Lists": P02X_Lists,
	"P02X_Nested": P02X_Nested,
	"P02X_Operators": P02X_Operators,
	"P02X_Soup": P02X_Soup,
	"P02_Alias": P02_Alias,
	"P02_Chain": P02_Chain,
	"P02_Generated": P02_Generated,
	"P02_Lists": P02_Lists,
	"P02_Long": P02_Long,
	"P02_Mutated": P02_Mutated,
	"P02_Names": P02_Names,
	"P02_Nested": P02_Nested,
	"P02_Operators": P02_Operators,
	"P02_Sizes": P02_Sizes,
	"P02_Soup": P02_Soup,
	"P02_Suffixes": P02_Suffixes,
	"P03X_Case": P03X_Case,
	"P03X_Generated": P03X_Generated,
	"P03X_If": P03X_If,
	"P03X_Labels": P03X_Labels,
	"P03X_Lists": P03X_Lists,
	"P03X_Loops": P03X_Loops,
	"P03X_Nested": P03X_Nested,
	"P03X_Try": P03X_Try,
	"P03_Alias": P03_Alias,
	"P03_Case": P03_Case,
	"P03_Generated": P03_Generated,
	"P03_If": P03_If,
	"P03_Labels": P03_Labels,
	"P03_Lists": P03_Lists,
	"P03_Long": P03_Long,
	"P03_Loops": P03_Loops,
	"P03_Mutated": P03_Mutated,
	"P03_Nested": P03_Nested,
	"P03_Sizes": P03_Sizes,
	"P03_Try": P03_Try,
	"P04X_GenDecls": P04X_GenDecls,
	"P04X_GenTypes": P04X_GenTypes,
	"P04X_Lists": P04X_Lists,
	"P04X_Record": P04X_Record,
	"P04X_Sections": P04X_Sections,
	"P04X_Type": P04X_Type,
	"P04_Alias": P04_Alias,
	"P04_Decls": P04_Decls,
	"P04_GenDecls": P04_GenDecls,
	"P04_GenTypes": P04_GenTypes,
	"P04_Lists": P04_Lists,
	"P04_Long": P04_Long,
	"P04_Record": P04_Record,
	"P04_Sections": P04_Sections,
	"P04_Sizes": P04_Sizes,
	"P04_Type": P04_Type,
	"P04_Types": P04_Types,
	"P05X_Generated": P05X_Generated,
	"P05X_Lists": P05X_Lists,
	"P05X_Members": P05X_Members,
	"P05X_Method": P05X_Method,
	"P05X_Property": P05X_Property,
	"P05_Alias": P05_Alias,
	"P05_Ancestors": P05_Ancestors,
	"P05_Generated": P05_Generated,
	"P05_Lists": P05_Lists,
	"P05_Long": P05_Long,
	"P05_Members": P05_Members,
	"P05_Method": P05_Method,
	"P05_Mutated": P05_Mutated,
	"P05_Property": P05_Property,
	"P05_Sizes": P05_Sizes,
	"P06X_GenProgram": P06X_GenProgram,
	"P06X_GenRoutine": P06X_GenRoutine,
	"P06X_GenUnit": P06X_GenUnit,
	"P06X_Heading": P06X_Heading,
	"P06X_Lists": P06X_Lists,
	"P06X_ProgramParts": P06X_ProgramParts,
	"P06X_Unit4": P06X_Unit4,
	"P06X_UnitParts": P06X_UnitParts,
	"P06_Alias": P06_Alias,
	"P06_Exports": P06_Exports,
	"P06_GenProgram": P06_GenProgram,
	"P06_GenRoutine": P06_GenRoutine,
	"P06_GenUnit": P06_GenUnit,
	"P06_Heading": P06_Heading,
	"P06_Index": P06_Index,
	"P06_Lists": P06_Lists,
	"P06_Long": P06_Long,
	"P06_Program": P06_Program,
	"P06_ProgramParts": P06_ProgramParts,
	"P06_Routine": P06_Routine,
	"P06_Sizes": P06_Sizes,
	"P06_Unit": P06_Unit,
	"P06_UnitParts": P06_UnitParts,
	"P07X_Start": P07X_Start,
	"P07X_TwoWords": P07X_TwoWords,
	"P07_Chars": P07_Chars,
	"P07_Exchanged": P07_Exchanged,
	"P07_Mutated": P07_Mutated,
	"P07_Sizes": P07_Sizes,
	"P08X_Generated": P08X_Generated,
	"P08_Generated": P08_Generated,
	"P08_Mutated": P08_Mutated,
	"P08_Texts": P08_Texts,
	"P09X_Mutated": P09X_Mutated,
	"P09_AllGaps": P09_AllGaps,
	"P09_Blanks": P09_Blanks,
	"P09_Comment": P09_Comment,
	"P09_NoGap": P09_NoGap,
	"P09_OneGap": P09_OneGap,
	"Q01X_Classes": Q01X_Classes,
	"Q01X_Units": Q01X_Units,
	"Q01_Ancestry": Q01_Ancestry,
	"Q01_AncestryProperties": Q01_AncestryProperties,
	"Q01_Classes": Q01_Classes,
	"Q01_Lists": Q01_Lists,
	"Q01_Long": Q01_Long,
	"Q01_Members": Q01_Members,
	"Q01_Nodes": Q01_Nodes,
	"Q01_Program": Q01_Program,
	"Q01_Properties": Q01_Properties,
	"Q01_Table": Q01_Table,
	"Q01_Unit": Q01_Unit,
	"Q01_Units": Q01_Units,
	"R01_Deep": R01_Deep,
	"R01_Long": R01_Long,
	"R01_LookAhead": R01_LookAhead,
	"R01_Many": R01_Many,
	"R01_Names": R01_Names,
	"R01_Scopes": R01_Scopes,
	"R01_Sizes": R01_Sizes,
	"R01_Statements": R01_Statements,
	"R01_Texts": R01_Texts,
	"R01_Uses": R01_Uses,
	"R02_Hiding": R02_Hiding,
	"R02_Long": R02_Long,
	"R02_Many": R02_Many,
	"R02_Names": R02_Names,
	"R02_Pairs": R02_Pairs,
	"R02_Scopes": R02_Scopes,
	"R02_Three": R02_Three,
	"R03X_Many": R03X_Many,
	"R03_Big": R03_Big,
	"R03_Many": R03_Many,
	"R03_Order": R03_Order,
	"R03_Own": R03_Own,
	"R03_Parts": R03_Parts,
	"R03_Program": R03_Program,
	"R03_Types": R03_Types,
	"R03_Units": R03_Units,
	"S01X_History": S01X_History,
	"S01_Clone": S01_Clone,
	"S01_History": S01_History,
	"S01_Imports": S01_Imports,
	"T01X_Any": T01X_Any,
	"T01X_Delimited": T01X_Delimited,
	"T01_Any": T01_Any,
	"T01_Big": T01_Big,
	"T01_Delimited": T01_Delimited,
	"T01_Inside": T01_Inside,
	"T01_Long": T01_Long,
	"T02X_Any": T02X_Any,
	"T02X_Delimited": T02X_Delimited,
	"T02X_Numbers": T02X_Numbers,
	"T02X_Symbols": T02X_Symbols,
	"T02_Any": T02_Any,
	"T02_Big": T02_Big,
	"T02_Changed": T02_Changed,
	"T02_Delimited": T02_Delimited,
	"T02_Inside": T02_Inside,
	"T02_Long": T02_Long,
	"T02_Numbers": T02_Numbers,
	"T02_Symbols": T02_Symbols,
	"T02_Words": T02_Words,
	"T03X_Delimited": T03X_Delimited,
	"T03X_Lines": T03X_Lines,
	"T03_Alias": T03_Alias,
	"T03_Any": T03_Any,
	"T03_Big": T03_Big,
	"T03_Clone": T03_Clone,
	"T03_Delimited": T03_Delimited,
	"T03_Gaps": T03_Gaps,
	"T03_Idents": T03_Idents,
	"T03_Inside": T03_Inside,
	"T03_LeadingLF": T03_LeadingLF,
	"T03_Lines": T03_Lines,
	"T03_Lists": T03_Lists,
	"T03_Long": T03_Long,
	"T03_Sizes": T03_Sizes,
	"T04X_Lines": T04X_Lines,
	"T04_Any": T04_Any,
	"T04_Copies": T04_Copies,
	"T04_Cursor": T04_Cursor,
	"T04_Lines": T04_Lines,
	"T04_Parser": T04_Parser,
	"T04_Texts": T04_Texts,
	"U01X_Four": U01X_Four,
	"U01_Big": U01_Big,
	"U01_Files": U01_Files,
	"U01_Graph": U01_Graph,
	"U01_Impl": U01_Impl,
	"U01_Many": U01_Many,
	"U01_Orders": U01_Orders,
	"U02X_Path": U02X_Path,
	"U02_Path": U02_Path,
	"U02_Program": U02_Program,
	"U02_Two": U02_Two,
	"W01X_Generated": W01X_Generated,
	"W01X_Lists": W01X_Lists,
	"W01_Alias": W01_Alias,
	"W01_Built": W01_Built,
	"W01_Classes": W01_Classes,
	"W01_Generated": W01_Generated,
	"W01_Lists": W01_Lists,
	"W01_Long": W01_Long,
	"W01_Mutated": W01_Mutated,
	"W01_Sizes": W01_Sizes,
	"W01_Stops": W01_Stops,
	"X01X_Slots": X01X_Slots,
	"X01_Chain": X01_Chain,
	"X01_Chars": X01_Chars,
	"X01_Long": X01_Long,
	"X01_Names": X01_Names,
	"X01_Slots": X01_Slots,
	"X01_Texts": X01_Texts,
	"X01_Tokens": X01_Tokens,
	"X01_Units": X01_Units,
	"X01_Words": X01_Words,
	"Y01X_Mutated": Y01X_Mutated,
	"Y01_Broken": Y01_Broken,
	"Y01_Kept": Y01_Kept,
	"Y01_Names": Y01_Names,
	"Y01_Texts": Y01_Texts,
}
