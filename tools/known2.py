FIXED += [
 ("C08", "415d9a6", "the empty text made the constraint lexer access an empty token list"),
 ("C08", "e00adc7", "the byte 0xff ended a constraint text instead of being rejected"),
 ("C08", "05260e8", "5-3 was lexed as one malformed number and silently became the maximal integer"),
 ("C09", "3eee17f", "printed constraints with ^ or / could not be parsed"),
 ("C09", "38b5473", "printed constraints with negative integers could not be parsed"),
 ("C09", "af4a4e4", "operators of nested constraints were not escaped in the HTML form"),
 ("C10", "1e82ea9", "building twice delivered a constraint whose operands had been moved away"),
 ("C05", "9b0f791", "output strings were not written"),
 ("C05", "7535ea8", "step functions were not written"),
 ("C05", "e2ee9fa", "revision ranges and member offsets of locations were not written"),
 ("C05", "a5f9426", "writing a location without start or end crashed"),
 ("C05", "1ee4e17", "listed values outside of the range of int were truncated when written"),
 ("C05", "55a1870", "non-boolean implications were written as implied or excluded options"),
 ("C05", "b7fecb9", "locations of the root were lost when reading"),
 ("C05", "e255e56", "or groups and alternative groups of some of the children were lost when writing"),
 ("C06", "293d750", "mixed constraints without req or exprKind attributes crashed the reader"),
 ("C06", "79e339e", "blanks around the names of children made a document fail to load"),
 ("C06", "ae6d721", "listed values in scientific notation were split into several values"),
 ("C13", "5954f01", "the empty step function text made the lexer access an empty token list"),
 ("C13", "634c45d", "the byte 0xff ended a step function text instead of being rejected"),
 ("C13", "c5b1150", "malformed numbers in step functions were accepted as other numbers"),
 ("C13", "b37c07b", "ranges without step function crashed, ranges whose step function does not proceed never ended"),
 ("C12", "b9b1564", "negative values of numeric features were reported as (- 5)"),
 ("C12", "e1002dc", "an exclusive or was encoded as an inclusive or"),
 ("C12", "b1065de", "ill-typed constraints made z3 throw"),
 ("C11", "ca626f7", "groups without members made z3 throw"),
 ("C11", "8230a35", "binary features below numeric features could not be added"),
 ("C14", "1f6d2b0", "isValid reported unsatisfiable models as valid"),
 ("C20", "a543754", "binary features without parent could not be added"),
 ("C20", "6b92da7", "relationships over numeric or unknown features crashed or were encoded wrongly"),
 ("C20", "2aa1e8a", "constraints over unknown features crashed"),
 ("C20", "9dfc871", "children and groups of features added by name as numbers made z3 throw"),
 ("C17", "33b9835", "iterating over a constant configuration visited no option"),
 ("C17", "47098d6", "True was read as false"),
 ("C22", "5cedcde", "quotes and backslashes in output strings were not escaped"),
 ("C16", "d252202", "requests nested in each other were removed twice"),
 ("C16", "ec130bf", "the root was silently dropped from the returned features"),
 ("C16", "81a78c9", "features whose groups have no members left were not removed"),
 ("C16", "7f0823f", "features requested twice were returned as not deleted although removed"),
 ("C15", "761696c", "merging models whose roots have different names crashed"),
 ("C15", "f880796", "parents whose names differ in case were taken for the same"),
 ("C15", "918c59b", "strict merging accepted different step functions or output strings"),
 ("C19", "7c97bb8", "models without name crashed the reader"),
 ("C19", "d957080", "lines without type and lines with less indentation than the root crashed, characters before the indentation were accepted"),
 ("C19", "0b132a1", "a second root silently replaced the first"),
 ("C19", "695ec9d", "blanks became part of the names of groups, identifiers of anonymous groups denoted nothing"),
 ("C19", "4a6e9ba", "identifiers were replaced inside of other identifiers and names"),
 ("C19", "d0684e1", "unparsable constraints were silently dropped"),
 ("C19", "aa591cc", "[1,1 was accepted as cardinality"),
 ("C19", "c2a257b", "the first character of names that directly follow the type was dropped"),
 ("C19", "15e50c2", "an empty feature tree was read as a model with a root"),
 ("C19", "962c69b", "features whose name contains their identifier were rejected"),
 ("C21", "9ed7960", "labels of features were escaped for quoted strings although they are HTML"),
 ("C07", "95bd9dc", "XML models that violate the document type in nested elements were accepted"),
 ("C07", "c0cdf99", "documents whose root is another declared element were accepted"),
 ("C25", "49467dd", "source ranges that differ only in their revisions were equal"),
 ("C26", "8e71290", "fm-viewer -verify did not exit after verifying the input"),
 ("C26", "79d8776", "fm-viewer -o reported success when the output could not be written"),
 ("C27", "584f0e2", "make_binary_feature of the Python builder ignored whether the feature is optional"),
 ("C27", "2bf6bfd", "a list of two values given to a numeric feature in Python became a range"),
 ("C27", "46ce598", "features, roots, names, locations and constraints handed to Python dangled when the model was dropped"),
 ("C28", "cdacd3a", "copies of non-constant results, values and errors held the truth value instead"),
 ("C04", "e63780f", "locations of features of unknown kind were lost when cloning"),
]
