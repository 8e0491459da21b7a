# generated by tools/tuples.py: the implementation of OnSlash for tuples of every size
crate on_slash_vesting

fn on_slash in <() as(account, amount)
  C34 allows
  C34 frame

fn on_slash in <(TupleElement0,) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 allows
  C34 frame

fn on_slash in <(TupleElement0, TupleElement1) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 allows
  C34 frame

fn on_slash in <(TupleElement0, TupleElement1, TupleElement2) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 allows
  C34 frame

fn on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 allows
  C34 frame

fn on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21, TupleElement22) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 call TupleElement22::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21, TupleElement22, TupleElement23) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 call TupleElement22::on_slash(account, amount)
  C34 call TupleElement23::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21, TupleElement22, TupleElement23, TupleElement24) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 call TupleElement22::on_slash(account, amount)
  C34 call TupleElement23::on_slash(account, amount)
  C34 call TupleElement24::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21, TupleElement22, TupleElement23, TupleElement24, TupleElement25) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 call TupleElement22::on_slash(account, amount)
  C34 call TupleElement23::on_slash(account, amount)
  C34 call TupleElement24::on_slash(account, amount)
  C34 call TupleElement25::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21, TupleElement22, TupleElement23, TupleElement24, TupleElement25, TupleElement26) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 call TupleElement22::on_slash(account, amount)
  C34 call TupleElement23::on_slash(account, amount)
  C34 call TupleElement24::on_slash(account, amount)
  C34 call TupleElement25::on_slash(account, amount)
  C34 call TupleElement26::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21, TupleElement22, TupleElement23, TupleElement24, TupleElement25, TupleElement26, TupleElement27) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 call TupleElement22::on_slash(account, amount)
  C34 call TupleElement23::on_slash(account, amount)
  C34 call TupleElement24::on_slash(account, amount)
  C34 call TupleElement25::on_slash(account, amount)
  C34 call TupleElement26::on_slash(account, amount)
  C34 call TupleElement27::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21, TupleElement22, TupleElement23, TupleElement24, TupleElement25, TupleElement26, TupleElement27, TupleElement28) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 call TupleElement22::on_slash(account, amount)
  C34 call TupleElement23::on_slash(account, amount)
  C34 call TupleElement24::on_slash(account, amount)
  C34 call TupleElement25::on_slash(account, amount)
  C34 call TupleElement26::on_slash(account, amount)
  C34 call TupleElement27::on_slash(account, amount)
  C34 call TupleElement28::on_slash(account, amount)
  C34 allows
  C34 frame

fn? on_slash in <(TupleElement0, TupleElement1, TupleElement2, TupleElement3, TupleElement4, TupleElement5, TupleElement6, TupleElement7, TupleElement8, TupleElement9, TupleElement10, TupleElement11, TupleElement12, TupleElement13, TupleElement14, TupleElement15, TupleElement16, TupleElement17, TupleElement18, TupleElement19, TupleElement20, TupleElement21, TupleElement22, TupleElement23, TupleElement24, TupleElement25, TupleElement26, TupleElement27, TupleElement28, TupleElement29) as(account, amount)
  C34 call TupleElement0::on_slash(account, amount)
  C34 call TupleElement1::on_slash(account, amount)
  C34 call TupleElement2::on_slash(account, amount)
  C34 call TupleElement3::on_slash(account, amount)
  C34 call TupleElement4::on_slash(account, amount)
  C34 call TupleElement5::on_slash(account, amount)
  C34 call TupleElement6::on_slash(account, amount)
  C34 call TupleElement7::on_slash(account, amount)
  C34 call TupleElement8::on_slash(account, amount)
  C34 call TupleElement9::on_slash(account, amount)
  C34 call TupleElement10::on_slash(account, amount)
  C34 call TupleElement11::on_slash(account, amount)
  C34 call TupleElement12::on_slash(account, amount)
  C34 call TupleElement13::on_slash(account, amount)
  C34 call TupleElement14::on_slash(account, amount)
  C34 call TupleElement15::on_slash(account, amount)
  C34 call TupleElement16::on_slash(account, amount)
  C34 call TupleElement17::on_slash(account, amount)
  C34 call TupleElement18::on_slash(account, amount)
  C34 call TupleElement19::on_slash(account, amount)
  C34 call TupleElement20::on_slash(account, amount)
  C34 call TupleElement21::on_slash(account, amount)
  C34 call TupleElement22::on_slash(account, amount)
  C34 call TupleElement23::on_slash(account, amount)
  C34 call TupleElement24::on_slash(account, amount)
  C34 call TupleElement25::on_slash(account, amount)
  C34 call TupleElement26::on_slash(account, amount)
  C34 call TupleElement27::on_slash(account, amount)
  C34 call TupleElement28::on_slash(account, amount)
  C34 call TupleElement29::on_slash(account, amount)
  C34 allows
  C34 frame
