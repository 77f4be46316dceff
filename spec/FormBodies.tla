----------------------------- MODULE FormBodies -----------------------------
(* Generated by gen/forms.py: the declarations MC_Forms dresses. *)
Bodies == <<
  [n |-> "SF", k |-> "struct", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"x\"", "default = \"7\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"see\"", "default = \"hi there\"">>], [k |-> "field", items |-> <<"default = \"513\"", "skip">>], [k |-> "field", items |-> <<"rename = \"E2\"", "serialize_none_as_null">>], [k |-> "field", items |-> <<"default_with = \"dw_vec\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"q\"", "skip">>], [k |-> "field", items |-> <<>>]>>],
  [n |-> "SC", k |-> "struct", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<"default", "serialize_none_as_null">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"bee\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"dee\"", "default = \"77\"">>], [k |-> "field", items |-> <<"skip">>]>>],
  [n |-> "SG", k |-> "struct", gen |-> TRUE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"first\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"b\"">>], [k |-> "field", items |-> <<"rename = \"o\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"default">>]>>],
  [n |-> "SN", k |-> "struct", gen |-> TRUE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"count\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>]>>],
  [n |-> "SP", k |-> "struct", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"w w\"", "proxy = \"WrapP\"">>], [k |-> "field", items |-> <<"proxy = \"i32\"">>], [k |-> "field", items |-> <<"rename = \"n2\"">>]>>],
  [n |-> "TS", k |-> "tuple", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>]>>],
  [n |-> "TG", k |-> "tuple", gen |-> TRUE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>]>>],
  [n |-> "TT", k |-> "tuple", gen |-> TRUE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<"transparent">>], [k |-> "field", items |-> <<>>]>>],
  [n |-> "TP", k |-> "tuple", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<"proxy = \"i32\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"proxy = \"WrapP\"">>]>>],
  [n |-> "EU", k |-> "enum", gen |-> FALSE, unit |-> TRUE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "variant", items |-> <<"rename = \"B\"">>], [k |-> "variant", items |-> <<"rename = \"A\"">>], [k |-> "variant", items |-> <<>>], [k |-> "variant", items |-> <<"rename = \"d d\"">>], [k |-> "variant", items |-> <<>>]>>],
  [n |-> "EV", k |-> "enum", gen |-> FALSE, unit |-> TRUE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "variant", items |-> <<>>]>>],
  [n |-> "ED", k |-> "enum", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"y\"", "default = \"5\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"a\"">>], [k |-> "variant", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "variant", items |-> <<>>]>>],
  [n |-> "ER", k |-> "enum", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "variant", items |-> <<"rename = \"pair\"">>], [k |-> "part", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "variant", items |-> <<"rename = \"rec\"">>], [k |-> "field", items |-> <<"rename = \"f\"">>], [k |-> "field", items |-> <<"skip">>], [k |-> "field", items |-> <<>>], [k |-> "variant", items |-> <<>>]>>],
  [n |-> "EG", k |-> "enum", gen |-> TRUE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "part", items |-> <<>>]>>],
  [n |-> "SB", k |-> "struct", gen |-> TRUE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"m2\"">>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>]>>],
  [n |-> "SX", k |-> "struct", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<"rename = \"optional\"">>], [k |-> "field", items |-> <<"default = \"true\"">>]>>],
  [n |-> "TB", k |-> "tuple", gen |-> TRUE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>]>>],
  [n |-> "EB", k |-> "enum", gen |-> TRUE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "field", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "part", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "variant", items |-> <<>>], [k |-> "part", items |-> <<>>]>>],
  [n |-> "PX", k |-> "tuple", gen |-> FALSE, unit |-> FALSE, place |-> TRUE, slots |-> <<[k |-> "item", items |-> <<"proxy = \"WrapP\"">>], [k |-> "field", items |-> <<>>]>>]
>>
=============================================================================
