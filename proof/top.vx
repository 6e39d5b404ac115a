//@types TOMLParser
//@props C01,C02
impl Disp for TOMLParser {
  open spec fn wf(&self) -> bool { self.parser.root.wf() }
  open spec fn render(&self) -> Txt { self.parser.root.render() }
//@fn <TOMLParser as Display>::fmt
//@endfn
}
/// what a parse result says about the text, the syntax tree and the reported errors
pub open spec fn outcome(input: Str, p: Parser, r: ParseResult) -> bool {
  &&& p.root.wf()
  &&& match r {
    ParseResult::Full => input.b@ == p.root.render() && p.errors@.len() == 0,
    ParseResult::Partial(l, n, _) => input.b@ == p.root.render() + l.b@ && l.b@.len() > 0 && p.errors@.len() == 0 && n == p.line_count,
    ParseResult::FullError(e) => input.b@ == p.root.render() && e@.len() > 0 && e == p.errors,
    ParseResult::PartialError(l, n, _, e) => input.b@ == p.root.render() + l.b@ && l.b@.len() > 0 && e@.len() > 0 && e == p.errors && n == p.line_count,
    ParseResult::Failure(_, _) => false,
  }
}
