"""The properties, how each is decided, and what that assures."""
A_TECH = 'static analysis: obligations compiled against the current headers; compiler data-flow (constant/range propagation, GVN, dead-code elimination) must prove the violation call unreachable'
A_LEVEL = ('Each obligation is one function over unconstrained arguments that calls a marked sink only if the clause is broken; it is discharged when at least one of five '
           'optimisation pipelines (clang and gcc) proves the sink dead while the success marker stays live. Nothing is run. Trusts the compilers; an obligation no pipeline can decide is reported as a violation.')
B_TECH = 'static analysis: libTooling dump of the resolved program, path-enumerating abstract interpretation of the anchored functions, structural obligations over the resulting effect traces'
B_LEVEL = ('Every path of the anchored functions is summarised as an ordered list of effects and branch conditions over symbolic inputs (loops as one generic iteration with loop-carried values abstracted); '
           'the obligations are checked on every trace. No solver, no execution. Trusts clang\'s front end and the container/STL models in lib/absint.py; code the rules cannot interpret is reported, not skipped.')
PROPS = []
NOT_APPLICABLE = []
HOOKS = None
NOTES = 'check.py decides one property; witness/ holds the compiled obligations, rules/ the rules over the resolved program; known_findings.txt lists genuine defects.'


def P(id, title, statement, over, forall, why, files, mech, tech=A_TECH, level=A_LEVEL, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, tech=tech, level=level, **kw))


P('Q01', 'Quantities never lose, invent or wrap units',
  'Adding, subtracting, multiplying, dividing, incrementing and decrementing quantities yields exactly the corresponding integer result, and subtracting more than is available is refused rather than wrapping around. '
  'Increment and decrement forms return the new (prefix) or the old (postfix) value. Comparisons between quantities, and with numbers, agree with the integer amounts.',
  ['inputs'], 'every pair of amounts (results that fit) and every scalar', 'The tests sample a handful of small amounts; the property is over all 64-bit amounts and every operator.',
  ['esl/quantity.hpp'], [('quantity', 'esl/quantity.hpp: operators')], observe=['quantity::amount'])
P('Q02', 'Price arithmetic is exact in minor units and keeps the currency',
  'Adding, subtracting, scaling and dividing prices acts on the exact number of minor units and keeps the currency; comparisons order prices of one currency by their value. '
  'A currency code is three capital letters with a positive number of minor units, anything else is refused, and currencies are ordered alphabetically by code. '
  'Converting between an amount in minor units and a decimal number divides or multiplies by the number of minor units.',
  ['inputs'], 'every value, every currency and denominator', 'Tests use a few prices in one or two currencies.',
  ['esl/economics/price.hpp', 'esl/economics/iso_4217.hpp'], [('price operators', 'esl/economics/price.hpp'), ('iso_4217', 'esl/economics/iso_4217.hpp: constructor, operator<')], observe=['price::value', 'price::valuation'])
P('Q03', 'Market quotes compare and combine consistently across lot sizes',
  'A quote has a non-zero lot, and zero lots are refused. The six comparisons of two quotes agree with each other and with their value per unit, so exactly one of less, equal and greater holds. '
  'Arithmetic on quotes keeps the kind of quote and the lot and acts on the quoted value.',
  ['inputs'], 'every value, lot and both kinds of quotes', 'Tests construct a few quotes and never compare different lots.',
  ['esl/economics/markets/quote.hpp'], [('quote operators', 'esl/economics/markets/quote.hpp')], observe=['quote::type', 'quote::lot'])
P('Q05', 'Identifying codes are validated, and keys tell distinct things apart',
  'Country codes are exactly two capital letters and market codes exactly four capital letters or digits; anything else is refused. Two share classes are equal only if all their rights are equal, and the order used '
  'when they are keys is strict, puts seniority first and separates every two different classes. Equal keys have equal hashes.',
  ['inputs'], 'every character, every combination of rights', 'Tests use only valid codes; no test uses two share classes of the same rank as keys.',
  ['esl/economics/finance/share_class.hpp', 'esl/geography/iso_3166_1_alpha_2.hpp', 'esl/economics/markets/iso_10383.hpp'],
  [('share_class comparison', 'esl/economics/finance/share_class.hpp: operator<, operator=='), ('code validation', 'constructors of iso_3166_1_alpha_2 and iso_10383')], observe=['std::map keyed by share_class'])
P('Q06', 'Intervals contain exactly the points between their bounds',
  'For every combination of open and closed ends, an interval contains a value exactly if it lies between the bounds, including a bound only where that end is closed. An interval is empty exactly if it contains no value, and a singleton exactly if it contains one.',
  ['inputs'], 'every bound and value, integer and floating, all four kinds of ends', 'Tests try a few points of a few intervals.',
  ['esl/mathematics/interval.hpp'], [('interval', 'esl/mathematics/interval.hpp: contains, empty, singleton')], observe=['interval::contains'])
P('Q07', 'Check digits of CUSIP, SEDOL and ISIN follow their standards',
  'Every symbol has its standard numeric value, every position contributes with its standard weight, and the check symbol is always a decimal digit. An ISIN made from a full 11 symbol sequence has the first two symbols as country and the other nine as its code.',
  ['inputs'], 'every symbol in every position', 'Tests compute three or four real-world codes, which exercise few symbols in each position.',
  ['esl/economics/finance/cusip.hpp', 'esl/economics/finance/sedol.hpp', 'esl/economics/finance/isin.hpp'],
  [('value, checksum', 'esl/economics/finance/{cusip,sedol,isin}.hpp')], observe=['checksum()'],
  level=A_LEVEL + ' The weights are decided one position at a time (all other symbols zero) by constant propagation, not for every combination of symbols.')
P('G01', 'Countries, currencies and jurisdictions are those of ISO 3166-1 and ISO 4217',
  'Every country constant has the alpha-2 code it is named after, and is given the name of that country; every other pair of letters is named by its code. Every currency constant has the code it is named after, the number of subunits of the standard (1 for those without subunits, 1000 or 10000 where there are three or four decimals, 100 otherwise), and is given the name of that currency; every other code of three letters is named by the code itself. '
  'Every jurisdiction has the country it is named after as sovereign, and its legal tender, with its subunits, as tender.',
  ['inputs'], 'every pair and triple of letters, and every constant', 'Tests use a few currencies and never look up a name.',
  ['esl/geography/countries.hpp', 'esl/economics/currencies.hpp', 'esl/law/jurisdictions.hpp', 'esl/law/jurisdiction.hpp'],
  [('countries, country_name', 'esl/geography/countries.hpp'), ('currencies, currency_name', 'esl/economics/currencies.hpp'), ('jurisdictions', 'esl/law/jurisdictions.hpp')], observe=['country_name()', 'currency_name()', 'iso_4217::denominator', 'jurisdiction::tender'],
  level=A_LEVEL + ' Decided for every code one by one, against tables written from the standards as of 2018, when the library was written; codes the library leaves out on purpose (IN, USN, XTS, XXX) are not judged.')
P('M01', 'Every message sent is delivered once, to its recipient, when it is due',
  'When the model exchanges messages, every message in the outbox of an agent is put exactly once into the inbox of its recipient, under its delivery time, and outboxes are emptied; the number of messages reported is the number taken from outboxes. '
  'A recipient that is not yet due by then is woken when the message is due. A message whose recipient is not among the local agents is not put into any inbox, and no message is otherwise lost, duplicated or altered.',
  ['inputs', 'histories'], 'every set of agents, outboxes and recipients', 'Tests exchange one or two messages between two agents.',
  ['esl/computation/environment.cpp', 'esl/interaction/communicator.hpp'],
  [('send_messages', 'esl/computation/environment.cpp: environment::send_messages')], tech=B_TECH, level=B_LEVEL, observe=['communicator::inbox'])
P('M02', 'Callbacks run once per due message, by priority, and decide when an agent wakes',
  'Processing messages dispatches every message of the inbox that is due to all callbacks registered for its type, each exactly once, with the interval and seed given, callbacks with higher priority first; messages that are due later are not dispatched. '
  'The result is the earliest time returned by any callback or at which a pending message is due, at most the end of the interval; a callback that returns a time outside of the interval is refused. '
  'Registering keeps earlier callbacks and is refused when the communicator is locked; a message created or sent is put into the outbox exactly once.',
  ['inputs', 'histories'], 'every inbox, set of callbacks, priority and schedule', 'Tests register one or two callbacks and process one message.',
  ['esl/interaction/communicator.cpp', 'esl/interaction/communicator.hpp'],
  [('process_message, process_messages', 'esl/interaction/communicator.cpp'), ('register_callback, create_message', 'esl/interaction/communicator.hpp')], tech=B_TECH, level=B_LEVEL, observe=['agent wake-up times'])
P('M03', 'A model step runs due agents in rounds and always knows the next event',
  'In each round of a step, exactly the agents whose wake-up time is the current time, or that have none yet, process their messages and then act, once, with the interval and a seed made from agent, time, round and sample; then messages are exchanged once. '
  'An agent next wakes at the earlier of the times both returned (never in the past), and keeps exactly the messages due later. '
  'Rounds repeat until no agent is due; the step returns the earliest wake-up time of any agent that is still active, and this becomes the current time; empty intervals are refused.',
  ['inputs', 'histories'], 'every set of agents, wake-up times and inboxes', 'Tests step models with one or two agents and fixed wake-up times.',
  ['esl/simulation/model.cpp', 'esl/simulation/model.hpp'], [('step, determine_next_event', 'esl/simulation/model.cpp')], tech=B_TECH, level=B_LEVEL, observe=['model::time', 'wake-up times'])
P('M04', 'Parallel steps do the same work as single threaded ones, without data races',
  'With several threads, the agents that are due are divided so that each acts exactly once, in one thread, doing what it would do in a single threaded step. '
  'State shared by threads is touched only while one common lock is held, and all threads have ended before messages are exchanged. '
  'A quantity divided into parts yields as many parts as asked for, which add up to the quantity.',
  ['schedules', 'inputs'], 'every interleaving, number of threads and agents', 'No test runs a step in several threads; races are not reproducible.',
  ['esl/simulation/model.cpp', 'esl/quantity.hpp'], [('step', 'esl/simulation/model.cpp: threads'), ('operator/', 'esl/quantity.hpp: division into parts')], tech=B_TECH, level=B_LEVEL, observe=['model::wake_up_times'])
P('M05', 'Work queues and thread pools lose no task, run none twice and never hang',
  'Items put into a work queue come out once each; waiting ends when there is an item or the queue is closed, closing loses no items, and an operation that does not wait reports failure only if the queue is busy or empty. '
  'All state of a queue is accessed under its lock, and adding or closing wakes those who wait. '
  'A thread pool has at least one thread, runs every task it was given exactly once, outside of any lock, and finishes all tasks before it is gone.',
  ['schedules', 'inputs'], 'every interleaving of producers, consumers and closing, every number of threads', 'No test uses the queue or the pool at all.',
  ['esl/computation/blocking_queue.hpp', 'esl/computation/thread_pool.hpp'],
  [('blocking_queue', 'esl/computation/blocking_queue.hpp: all member functions'), ('thread_pool', 'esl/computation/thread_pool.hpp')], tech=B_TECH, level=B_LEVEL, observe=['pop()', 'thread_pool::enqueue_task()'])
P('M06', 'A run initialises once, steps from start to end without gaps, terminates once',
  'Running a model with its environment initialises it exactly once before the first step and terminates it exactly once after the last. The first step begins at the start of the simulation, every other at the time the step before it returned, '
  'all may reach up to its end, and steps are taken exactly as long as that time is before the end. A single step covers the time from now to the end and does nothing once the end is reached. '
  'Between steps the environment changes nothing in the model itself. Agents that are queued for activation or deactivation are counted once and leave the queue. '
  'A model takes its start, end, sample, verbosity and number of threads, at least one, from the parameters with these names, and its time begins at its start.',
  ['histories', 'inputs'], 'every start and end, every sequence of times returned by steps', 'The environment is not part of the tests.',
  ['esl/computation/environment.cpp', 'esl/simulation/model.cpp'],
  [('running and stepping', 'esl/computation/environment.cpp: environment::run, step'), ('queues', 'esl/computation/environment.cpp: activate, deactivate, activate_agent, deactivate_agent'), ('construction', 'esl/simulation/model.cpp: model::model')], tech=B_TECH, level=B_LEVEL, observe=['environment::run()', 'environment::step()', 'model::time'])
P('M07', 'Every message has the code of its kind and carries what it was made with',
  'No two kinds of messages share a code, the codes of the library lie in the range reserved for it, and the code a kind is registered by is the one its messages carry. '
  'A message holds the sender, recipient, sending time, receiving time and content it is constructed with, each in its own place, and no part of it is left unset. The code of a message never changes.',
  ['inputs', 'programs'], 'every kind of message of the library, every content', 'Tests construct two kinds of messages, and never compare what they hold with what they were made of.',
  ['esl/interaction/message.hpp', 'esl/interaction/header.hpp', 'esl/interaction/transfer.hpp', 'esl/economics/markets/*_message.hpp', 'esl/economics/finance/dividend.hpp'],
  [('codes', 'esl/interaction/message.hpp, esl/computation/type_code.hpp, esl/interaction/header.hpp: library_message_code'), ('constructors of messages', 'esl/interaction/header.hpp, esl/interaction/transfer.hpp, esl/economics/markets, esl/economics/finance/dividend.hpp')], tech=B_TECH, level=B_LEVEL, observe=['header and content of messages'])
P('D01', 'Equal inputs give equal results: nothing but the inputs decides',
  'What the library computes depends on its inputs only. Every constructor gives all fields of an object a value, and no variable is read before it has one, so what memory held before does not matter. '
  'Clocks, random devices, the environment of the process and the identity of threads are only ever printed or logged; they decide no result, no time and no branch that has one (the number of processors decides the number of workers of a thread pool, and nothing else). '
  'No result depends on where objects lie: addresses are not ordered, hashed or turned into numbers, and walking a container that is ordered by address does the same in any order. '
  'Nothing is remembered between two calls or runs in a process but in the objects they use: there are no variables of static duration that change, other than logs and locks, so equal seeds give equal samples each time.',
  ['inputs', 'histories', 'schedules'], 'every content of memory, placement of objects, time, machine and history of the process', 'Tests run once in one process on one machine with mostly cleared memory; what depends on leftovers, addresses or clocks looks right there.',
  ['esl/simulation/model.cpp', 'esl/simulation/parameter/sampler.hpp', 'esl/economics/finance/bond.hpp', 'esl/data/output_base.cpp', 'esl/computation/environment.cpp', 'esl/interaction/communicator.cpp', 'esl/economics/markets/order_book/static_order_book.hpp'],
  [('constructors', 'all constructors and local variables of esl/'), ('machine', 'esl/simulation/model.cpp: step; esl/computation/environment.cpp: run; esl/interaction/communicator.cpp'), ('addresses', 'esl/simulation/parameter/sampler.hpp; esl/law/property_collection_hash.hpp'), ('globals', 'all variables of static duration of esl/')], tech=B_TECH, level=B_LEVEL, observe=['any result of the library'])
P('P01', 'Parameters keep their values, and samplers cover the space they promise',
  'A parametrization holds the sample, start, end, verbosity and number of threads it was constructed with under these names; looking up a name returns the value of the parameter of that name and type and otherwise raises std::out_of_range. '
  'A grid has one sample for every combination of the evenly spaced values of all parameters (from the lower to the upper bound, only the lower one if the density is one), none left out or repeated. '
  'A latin hypercube has as many samples as its density, and each parameter takes each of its evenly spaced values in exactly one of them. Uniform sampling takes as many samples as asked, with each parameter drawn between its own bounds.',
  ['inputs'], 'every set of parameters, bounds and densities, every name', 'Tests sample two shapes once and count distinct points; they never look at the values, and never look up a parameter.',
  ['esl/simulation/parameter/parametrization.hpp', 'esl/simulation/parameter/sampler.hpp', 'esl/simulation/parameter/parameter.hpp'],
  [('parametrization', 'esl/simulation/parameter/parametrization.hpp: constructor, get'), ('samplers', 'esl/simulation/parameter/sampler.hpp: grid, latin_hypercube, uniform_random')], tech=B_TECH, level=B_LEVEL, observe=['parametrization::get()', 'sampler::grid()', 'sampler::latin_hypercube()'])
P('I01', 'Identities are unique and agents are found under theirs',
  'Every child gets the digits of its parent followed by the number of the child, and that number then increases, so no two children share an identity. Identities compare like their sequences of digits, are equal exactly if these are, '
  'keep them when converted, copied or assigned, and hash by digits only. '
  'An agent that is created is locked against changes and activated once, active agents are found under their own identity, a deactivated one is removed, and looking up an unknown one yields nothing and adds nothing.',
  ['inputs', 'histories'], 'every sequence of digits, every history of creating, activating and deactivating agents', 'Tests compare a few short identities and never deactivate agents.',
  ['esl/simulation/identity.hpp', 'esl/simulation/entity.hpp', 'esl/simulation/agent_collection.hpp', 'esl/simulation/agent_collection.cpp'],
  [('identity', 'esl/simulation/identity.hpp: create, comparisons, hash'), ('agent_collection', 'esl/simulation/agent_collection.{hpp,cpp}')], tech=B_TECH, level=B_LEVEL, observe=['entity::identifier', 'agent_collection::local_agents_'])
P('O01', 'The dynamic order book matches by price, then time, and loses no order',
  'In the dynamic (tree-based) order book an incoming order trades only with resting orders of the other side whose price is at least as good as its limit, best price first and within a price in order of arrival, until it is filled or nothing acceptable rests; each trade is at the resting order\'s price for the lesser of both quantities, and is reported to both owners. '
  'A filled order is removed and no longer listed, a remainder is placed under a new identifier and reported, or cancelled if it must be executed immediately; the best bid and ask are the highest buy and lowest sell price, orders() lists exactly the resting orders, and cancelling removes exactly the order asked for and reports it. '
  'A matching engine sends orders and cancellations to the book of their symbol.',
  ['inputs', 'histories'], 'every book, order, cancellation, and every history of them', 'Tests insert a handful of orders at one or two prices.',
  ['esl/economics/markets/order_book/binary_tree_order_book.hpp', 'esl/economics/markets/order_book/matching_engine.hpp'],
  [('binary_tree_order_book', 'esl/economics/markets/order_book/binary_tree_order_book.hpp: insert, cancel, bid, ask, orders'), ('matching_engine', 'esl/economics/markets/order_book/matching_engine.hpp: insert, cancel')], tech=B_TECH, level=B_LEVEL, observe=['reports', 'orders()', 'bid(), ask()'])
P('O02', 'The static order book matches by price, then time, and accounts for every unit',
  'In the static (array-based) order book an incoming order trades only with resting orders of the other side at price levels at least as good as its limit, best level first and within a level in order of arrival, until it is filled or nothing acceptable rests; each trade is at the price of its level for the lesser of both quantities, is taken off both orders, and is reported to both owners with the same quantity and price. '
  'A filled resting order leaves the queue of its level and the pool; a remainder is placed at the end of the queue of its limit\'s level under a new identifier and reported, or reported cancelled if the order is not good until cancelled, and an order outside the valid prices, without quantity or with another lot size is reported invalid and changes nothing. '
  'The best bid and ask improve with each order placed, and move on to the next level with orders when a level is emptied.',
  ['inputs', 'histories'], 'every book, order, and every history of them', 'Tests insert a handful of orders at a few prices.',
  ['esl/economics/markets/order_book/static_order_book.hpp'],
  [('static_order_book', 'esl/economics/markets/order_book/static_order_book.hpp: insert, match_at_level')], tech=B_TECH, level=B_LEVEL, observe=['reports', 'orders()', 'bid(), ask()'])
P('O03', 'Cancelling in the static order book removes one order and keeps the queue',
  'Cancelling an open order of the static (array-based) order book removes exactly that order: the orders before and after it in the queue of its level become neighbours, the first and last of the queue are updated, the cancellation is reported once with its side, price, remaining quantity and owner, and the best bid and ask are brought up to date; cancelling an order that is not open changes nothing. '
  'The best bid and ask are the prices of their levels, or none, and orders() lists every order of every level exactly once.',
  ['inputs', 'histories'], 'every book, identifier, and every history', 'Tests cancel a few orders, mostly alone at their level.',
  ['esl/economics/markets/order_book/static_order_book.hpp'],
  [('static_order_book', 'esl/economics/markets/order_book/static_order_book.hpp: cancel, orders, bid, ask')], tech=B_TECH, level=B_LEVEL, observe=['reports', 'orders()', 'bid(), ask()'])
P('O04', 'The block pool never hands out an identifier or a block twice',
  'A block pool places each new element in a free block, gives it an identifier higher than any given out before that leads back to that block, and refuses to place an element only when it is full. '
  'Erasing an element makes its identifier invalid and its block the next free one, changes nothing for an identifier that is not in use, and the pool\'s size is always the number of elements; looking up by identifier finds that element, and contains() is true only for identifiers in use.',
  ['inputs', 'histories'], 'every pool, and every history of placements and removals', 'Tests place and remove a few elements in one order.',
  ['esl/computation/block_pool.hpp'],
  [('static_block_pool', 'esl/computation/block_pool.hpp: emplace, erase, contains, operator[], at')], tech=B_TECH, level=B_LEVEL, observe=['identifiers returned', 'contains, size'])
P('T01', 'A transfer takes from one owner exactly what it gives to the other',
  'When a transfer is processed, the transferor loses and the transferee gains exactly the property and quantities that are transferred, in the inventory and, for each type of property an owner keeps apart, in the holdings of that type; each piece is looked at once and property of other types is left alone. '
  'A transfer to oneself, or one to which the owner is not a party, changes nothing. If the transferor lacks what it sends this is raised as an error. Property that is taken is added alike to the inventory and to the holdings of its type, to what is already owned.',
  ['inputs', 'histories'], 'every transfer, owner and type of property', 'Tests do not process transfers; they fill inventories by hand.',
  ['esl/economics/owner.hpp'],
  [('owner<property>', 'esl/economics/owner.hpp: callback for transfers'), ('owner<T>', 'esl/economics/owner.hpp: callback for transfers, take')], tech=B_TECH, level=B_LEVEL, observe=['inventory', 'properties'])
P('T02', 'Inventories add and remove exactly what is asked, and never go negative',
  'Adding property to an inventory increases the quantity held of that property, and of no other, by exactly the quantity added, whether it was held before or not. Removing decreases it by exactly the quantity removed, and fails with an error, before anything of that property is changed, if less than that is held; removing nothing of what is not held does nothing. '
  'Adding or removing a whole inventory does this once for each entry, and likewise for adding it to or removing it from a property map. Property of which there is one is held or not: it is added once, and removed only when held.',
  ['inputs', 'histories'], 'every inventory, property and quantity, and every history of changes', 'Tests add and remove a few quantities of one or two properties.',
  ['esl/economics/accounting/inventory.hpp'],
  [('inventory_by_fungibility', 'esl/economics/accounting/inventory.hpp: insert, erase, insert_into, erase_from'), ('quantity', 'esl/quantity.hpp: += and -=')], tech=B_TECH, level=B_LEVEL, observe=['items', 'property map'])

P('S01', 'What is archived is what is restored',
  'Saving an object to a boost archive and loading it into another object of that type restores it: each of its members, and each of its bases that have members, holds what it held when it was saved, whatever the object that is loaded into held before and whatever values were saved; and loading reads the same things, as the same types, in the same order and as many of them, as saving wrote. Saving does not change the object. '
  'This holds for identities, entities, quantities, currencies, prices, quotes, rates (of any magnitude), intervals, tuples, time intervals, messages and their headers (including dividends, transfers, orders, market data), properties (assets, contracts, securities, stocks, loans, money), inventories and owners, shareholders, bondholders, companies, legal persons, agents with communicator and outputs, timings, accounting standards and markets. '
  'Not part of an object are callbacks, streams of outputs, and the impact function of a market, which constructors set up.',
  ['inputs', 'histories'], 'every value of every member of an object of those types, and every object that is loaded into', 'No existing test archives anything; a round trip of one object with default values hides members that are left out.',
  ['esl/interaction/header.hpp', 'esl/economics/price.hpp', 'esl/economics/markets/quote.hpp', 'esl/mathematics/rational.hpp', 'esl/data/producer.hpp', 'esl/economics/owner.hpp', 'esl/interaction/communicator.hpp'],
  [('header', 'esl/interaction/header.hpp: serialize, and likewise in each class'), ('iso_4217', 'esl/economics/iso_4217.hpp: save and load'), ('producer', 'esl/data/producer.hpp: save and load'), ('rational', 'esl/mathematics/rational.hpp: save and load')], tech=B_TECH, level=B_LEVEL, observe=['archives', 'members'])
P('F01', 'Amounts, dividends and cash flows are computed exactly and in the right unit',
  'An exchange rate multiplies a price, also a negative one, by its numerator and divides by its denominator, truncating. An accounting standard values money in its reporting currency at its amount, other money by the exchange rate of that currency in the reporting currency, a stock at the quoted price of a lot times the quantity divided by the lot, '
  'a securities lending contract at minus that for the size of the contract, and a loan at minus its quantity in units of the reporting currency; it raises std::domain_error only without an exchange rate and std::logic_error only without a quote. '
  'A cash flow statement adds up exactly the mutations at or after the start and before the end of the interval: all of them, only positive ones for income, and only negative ones for expenses. '
  'A company counts its shares of all classes; it pays no dividend without a profit or without shares, and otherwise lists exactly the classes with a dividend, with their number of shares and the profit divided by the number of all shares, rounded toward zero in its tender; the total of a dividend policy is the sum over its classes of number times dividend per share. '
  'A dividend is announced once, when its announcement date is reached, to every shareholder; shareholders send a record of their shares on the dates they were told, and share- and bondholders keep the price quoted last for each property.',
  ['inputs', 'histories'], 'every price, rate, quote, cash flow, company, dividend policy and history of announcements and quotes', 'Tests convert one positive price and value a few assets; no test computes dividends, cash flows or processes an announcement.',
  ['esl/economics/exchange_rate.hpp', 'esl/economics/accounting/standard.hpp', 'esl/economics/accounting/cash_flow_statement.hpp', 'esl/economics/company.cpp', 'esl/economics/finance/dividend.cpp', 'esl/economics/finance/shareholder.cpp', 'esl/economics/finance/bondholder.cpp'],
  [('exchange_rate', 'esl/economics/exchange_rate.hpp: operator*'), ('standard', 'esl/economics/accounting/standard.hpp: value'), ('cash_flow_statement', 'esl/economics/accounting/cash_flow_statement.hpp: history, income, expenses, revenue'), ('company', 'esl/economics/company.cpp: total_shares, compute_dividend_per_share, act'), ('shareholder', 'esl/economics/finance/shareholder.cpp: constructor, submit_dividend_record, stock_holdings')], tech=B_TECH, level=B_LEVEL, observe=['prices returned', 'messages sent', 'prices kept'])
P('A01', 'The agents of the library never ask for the past and never stop time',
  'When an agent of the library acts or handles a message in a step, the time at which it asks to act next, and the time at which every message it sends is delivered, are not before the start of that step, whatever its state and the messages it holds (otherwise the model raises an error, or a message is received in the past). Every message it sends names it as the sender. '
  'An agent that asks for the start of the step again, so that time stands still, has taken a message that is removed afterwards or has changed its own state in a way that does not lead back, so that it does not do so forever. '
  'The handlers an agent registers refer to nothing that ends with its constructor.',
  ['inputs', 'schedules', 'histories'], 'every step, state, message and history of messages, for every agent the library builds (agent, owners, companies, share- and bondholders, exchanges, impact function markets)', 'Tests run a few steps of agents written for the test; the acts and handlers of the library are hardly run at all, and never with late messages.',
  ['esl/agent.cpp', 'esl/economics/company.cpp', 'esl/economics/owner.hpp', 'esl/economics/finance/shareholder.cpp', 'esl/economics/finance/bondholder.cpp', 'esl/economics/markets/centralized_exchange.hpp', 'esl/economics/markets/impact_function/market.cpp'],
  [('act', 'every override of esl::agent::act: esl/agent.cpp, esl/economics/company.cpp, esl/economics/markets/impact_function/market.cpp'), ('handlers', 'every closure given to communicator::register_callback by a constructor'), ('messages', 'every call of communicator::create_message and send_message')], tech=B_TECH, level=B_LEVEL, observe=['times returned', 'messages sent'])
P('X01', 'An exchange routes orders, reports and market data to whom they concern',
  'A centralized exchange enters an order exactly once in the book of its instrument, and raises an exception without any effect when there is none. Each report of the book is then sent exactly once, to the owner of the order it is about, now, arriving after the latency between the exchange and that owner (or at once without a latency model), and is forgotten; '
  'reports that are not invalid and concern the one who sent the order are put on record. A cancellation does the same with the reports it leads to, once, in the book of the instrument named, and changes nothing when there is none. '
  'Every subscriber to the instrument whose period has passed, and nobody else, is sent market data once for each trade, and for any other report when the order changed the best ask or bid: the instrument, the trade at its own price and quantity, and the best ask and bid after the order where there are any; the period then starts again. '
  'A request for market data subscribes its sender for the instruments named, replacing what was asked before, once (snapshot) or at every change (stream), or ends that subscription only. '
  'Who logs on has a position with their supply and nothing bought or sold in every instrument; who logs out loses their own positions only.',
  ['inputs', 'histories'], 'every order, cancellation, request, logon and logout, in any state of the exchange, its books, subscriptions and latency', 'One test runs an exchange with a single kind of trader and checks nothing about the messages it sends.',
  ['esl/economics/markets/centralized_exchange.hpp'],
  [('insert_order', 'esl/economics/markets/centralized_exchange.hpp: insert_order'), ('logon and logout', 'esl/economics/markets/centralized_exchange.hpp: logon_participant, logout_participant'), ('callbacks', 'esl/economics/markets/centralized_exchange.hpp: constructor (handlers of requests for market data, new orders and cancellations), insert, cancel')], tech=B_TECH, level=B_LEVEL, observe=['messages sent', 'subscriptions', 'positions', 'calls of the books'])
