. /tmp/w/m.sh; P=M07; T=2
F=esl/economics/markets/logout_message.hpp; m dupcode <<'E'
s=s.replace('0x00C01','0x00C03')
E
F=esl/economics/markets/walras/quote_message.hpp; m nomask <<'E'
s=s.replace('interaction::library_message_code<0x00A0U>()','0x00A0U')
E
F=esl/interaction/header.hpp; m mask <<'E'
s=s.replace('return message_mask | offset_;','return offset_;')
E
m swap <<'E'
s=s.replace(', sent(sent)',', sent(received)')
E
m type <<'E'
s=s.replace(': type(type)',': type(type & ~message_mask)')
E
F=esl/interaction/message.hpp; m drop <<'E'
s=s.replace('''                , received
                 )''','''                , sent
                 )''')
E
m code0 <<'E'
s=s.replace('header( type_code_','header( 0')
E
F=esl/economics/markets/quote_message.hpp; m times <<'E'
s=s.replace('sent, received)\n        , proposed','received, sent)\n        , proposed')
E
m binding <<'E'
s=s.replace('binding(binding)','binding(indicative)')
E
F=esl/economics/markets/walras/quote_message.hpp; m times2 <<'E'
s=s.replace(', received)',', sent)')
E
F=esl/economics/finance/dividend.hpp; m swapped <<'E'
s=s.replace('(issuer, receiver)','(receiver, issuer)')
E
m dr <<'E'
s=s.replace(', shares_on_record(std::move(shares_on_record))','')
E
F=esl/interaction/transfer.hpp; m same <<'E'
s=s.replace(', transferee(transferee)',', transferee(transferor)')
E
m sender <<'E'
s=s.replace('            sender,\n            recipient)','            recipient,\n            sender)')
E
F=esl/economics/markets/cancel_order_message.hpp; m uninit <<'E'
s=s.replace(', order(basic_book::direct_order)','')
E
F=esl/economics/markets/market_data_request_message.hpp; m depth <<'E'
s=s.replace('depth(depth)','depth(0)')
E
F=esl/economics/markets/execution_report_message.hpp; m rec <<'E'
s=s.replace('received)\n','sent)\n',1) if 'received)\n' in s else s.replace(', received',', sent')
E
F=esl/computation/type_code.hpp; m const <<'E'
s=s.replace('code = code_integer_','code = code_integer_ & 0xffff')
E
F=esl/interaction/communicator.hpp; m writes <<'E'
s=s.replace("outbox.push_back(m);","m->type = 0; outbox.push_back(m);")
E
