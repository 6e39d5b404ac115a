//@props C01,C02
//@fn Parser::parse
  ensures outcome(input, r.0, r.1)
//@endfn
//@fn TOMLParser::parse this
  ensures outcome(input, r.0.parser, r.1)
//@endfn
