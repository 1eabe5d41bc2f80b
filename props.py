"""Single source of properties.jsonl and MANIFEST.json:  python3 props.py"""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = {}


def prop(pid, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=(), technique=None, note="", na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(pid=pid, title=title, technique=technique or AI, note=note, json=dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=list(observe), hook_needed=None))))
    if na:
        NA[pid] = na


AI = "abstract interpretation of the crate's MIR (symbolic polynomials + interval/congruence store)"
FD = "abstract interpretation of the crate's MIR, exact powerset domain over all supported dates"
BASE = ("Sound for the stated quantifier relative to the trusted base: the MIR interpreter in lib/, its models of std and chrono, "
        "real arithmetic for f64. An analysis that cannot decide reports a violation (fails closed). ")

DATE = "datetime/date.rs"
CAL = "datetime/calendar.rs"
PER = "datetime/period.rs"

# ---- dates -----------------------------------------------------------------------------------------
prop("D01", "Every supported date has the correct calendar components",
     "For every date from 1 January 1900 to 31 December 2199 the day, month, year, day of year, weekday, leap-year flag, month end and serial "
     "number reported for it are those of the proleptic Gregorian calendar with 31 December 1899 having serial 1.  Asking for leap years outside the range is rejected.",
     "all 109,573 supported dates; all 32-bit years for the leap-year query",
     "Unit tests look at a handful of dates; a wrong table entry or off-by-one in one month or century year is invisible to them.",
     [DATE, "datetime/months.rs", "datetime/weekday.rs"],
     [("date accessors", "src/datetime/date.rs: day_of_month, month, year, day_of_year, weekday, end_of_month, is_end_of_month, is_leap"),
      ("integer to enum conversions", "src/datetime/months.rs, src/datetime/weekday.rs")], technique=FD, observe=["Date accessors"],
     note=BASE + "Complete enumeration of the date domain inside the abstract domain.")
prop("D02", "Dates are consistent and in range, or construction is rejected",
     "Every operation that produces a date either yields a date within 1900-01-01..2199-12-31 whose serial number and calendar day agree and are the exact "
     "result of the day arithmetic, or is rejected.  Adding n days and subtracting n days are exact inverses wherever both are accepted, in by-value and in in-place form alike.",
     "all candidate civil dates around the range, all serials, all dates and all 32-bit day counts",
     "Tests exercise small offsets in the middle of the range, never the boundaries of every operator or its in-place twin.",
     [DATE], [("range assertion", "src/datetime/date.rs: check_serial_number"), ("constructors and operators", "src/datetime/date.rs: new, from_serial, Add/Sub/AddAssign/SubAssign")],
     state=[("serial number and instant", "two redundant representations that must agree", "src/datetime/date.rs: struct Date")], observe=["Date::new, from_serial, +, -, +=, -="],
     note=BASE + "Also a who-may-construct rule over every function of the crate.")
prop("D03", "Date ordering, equality and difference agree with chronology",
     "Comparison, equality, hashing and subtraction of two dates agree with their chronological order and day count; ordering is total.",
     "all pairs of valid dates", "Tests compare a few sample pairs.", [DATE],
     [("comparison and difference impls", "src/datetime/date.rs: PartialEq, PartialOrd, Ord, Hash, Sub<Date>")], observe=["==, <, cmp, -"], note=BASE)
prop("D04", "Moving a date by a period is calendar-month arithmetic",
     "Adding or subtracting a period of days or weeks shifts the date by exactly that many days; of months or years it moves that many calendar months keeping the day of "
     "month, clamped to the last day of the target month.  The move is rejected exactly when the result leaves the supported range.",
     "every date, every 32-bit period length, every calendar unit, every operator form",
     "Month-end clamping across leap years and negative lengths has far more cases than any sample of tests.", [DATE, PER],
     [("advance by unit", "src/datetime/date.rs: advance"), ("operators", "src/datetime/date.rs: Add/Sub/AddAssign/SubAssign<Period>")], observe=["date + period, date - period"],
     note=BASE)
prop("D05", "The n-th weekday of a month is the right day or is rejected",
     "Asking for the n-th occurrence of a weekday in a month returns that very day whenever it exists, and is rejected for n below 1 or above 5.",
     "every n, weekday, month and supported year", "Tests sample a few months.", [DATE], [("n-th weekday formula", "src/datetime/date.rs: nth_weekday")], technique=FD,
     observe=["Date::nth_weekday"], note=BASE)
prop("D06", "Integer and enumeration conversions are inverse of each other",
     "Converting a month, weekday or frequency to its ordinal and back yields the same value, every standard ordinal is accepted, and any other integer is rejected.",
     "all integers and all enumeration values", "Tests convert a couple of values; a missing arm panics only for that value.",
     ["datetime/months.rs", "datetime/weekday.rs", "datetime/frequency.rs"], [("From<integer> impls", "src/datetime/{months,weekday,frequency}.rs")], observe=["From/Into"], note=BASE)
prop("D07", "Comparing periods never contradicts the time spans they denote",
     "Two periods compare less, equal or greater only when every possible reading of their spans does so; equality is an equivalence compatible with hashing; "
     "periods that cannot be ordered are reported as unordered rather than ordered arbitrarily.",
     "every pair of units and all lengths", "Pairs of units and lengths are unbounded; tests sample a few.", [PER], [("PartialEq, PartialOrd, Hash", "src/datetime/period.rs")],
     observe=["==, <, partial_cmp, hash"], note=BASE + "Lengths bounded so that 32-bit arithmetic does not overflow.")
prop("D08", "Period arithmetic and normalisation preserve the denoted span",
     "Adding, subtracting, negating, scaling, dividing, normalising and converting a period yields exactly the span the operation denotes, or is rejected when that span is not expressible.",
     "every unit and all lengths", "Tests sample a few lengths.", [PER], [("operators and conversions", "src/datetime/period.rs")], observe=["+, -, *, /, normalize, years/months/weeks/days"],
     note=BASE + "Lengths bounded so that 32-bit arithmetic does not overflow.")
prop("D09", "Frequencies and periods convert consistently",
     "The frequency of a period and the period of a frequency denote the same number of events per year, for every standard frequency, independent of the sign of the length; "
     "other periods map to the 'other' frequency and meaningless frequencies are rejected.",
     "every frequency; every unit and length", "Tests sample a few frequencies.", [PER, "datetime/frequency.rs"], [("Period::frequency, From<Frequency>", "src/datetime/period.rs")],
     observe=["Period::frequency, Period::from"], note=BASE)
prop("D10", "IMM dates are exactly the third Wednesdays",
     "A date is recognised as an IMM date iff it is the third Wednesday of its month (of March, June, September or December in the main cycle), and the next IMM date after a "
     "date is the earliest such day strictly later.",
     "every supported date, both cycles", "Tests walk a few years and compare the two functions with each other.", ["datetime/imm.rs"], [("IMM rules", "src/datetime/imm.rs: is_imm_date, next_date")],
     technique=FD, observe=["IMM::is_imm_date, IMM::next_date"], note=BASE + "next_date is claimed up to 2199-12-01.")
prop("D11", "Easter Monday is right for every supported year",
     "For every year 1900 to 2199 the Western and Orthodox Easter Mondays used by the calendars are those given by the Gregorian and Julian computus; other years are rejected.",
     "all 300 years; all 32-bit years for rejection", "A wrong entry for one year affects only dates no test visits.", [CAL, "datetime/holiday.rs"],
     [("Easter tables", "src/datetime/calendar.rs, src/datetime/holiday.rs: easter_monday, easter_monday_orthodox")], technique=FD, observe=["easter_monday"], note=BASE)

# ---- calendars -------------------------------------------------------------------------------------
HOL = "Tests check the holiday lists of a few years; each rule has per-year exceptions over three centuries."
for pid, who, files in (("C01", "United States (settlement, Libor, NYSE, bond, NERC, Fed)", ["unitedstates"]), ("C02", "United Kingdom (settlement, exchange, metals)", ["unitedkingdom"]),
                        ("C03", "Brazil (settlement, exchange)", ["brazil"]), ("C04", "Italy (settlement, exchange)", ["italy"]), ("C05", "Japan", ["japan"]),
                        ("C06", "Switzerland and TARGET", ["switzerland", "target"])):
    prop(pid, "%s: business days" % who.split(" (")[0] + " follow the market's rules",
         "For %s, a supported date is a holiday exactly when it is a weekend day or one of the market's holidays of that year "
         "(fixed, observed, n-th weekday, Easter-related or one-off), and a business day otherwise." % who,
         "every supported date and every calendar of the market", HOL, ["datetime/holidays/%s.rs" % f for f in files] + [CAL, "datetime/holiday.rs", "datetime/weekend.rs"],
         [("holiday rules", ", ".join("src/datetime/holidays/%s.rs: is_business_day" % f for f in files)), ("dispatch", "src/datetime/holiday.rs")], technique=FD,
         observe=["Calendar::is_holiday"], note=BASE + "Oracle: lib/holidays.py, written from the documented rules.")
prop("C07", "Calendar identity: names, weekends, theoretical calendars, constructors",
     "Each calendar reports its own name and weekend days, starts without ad-hoc holidays, and is the same whichever constructor builds it; the weekends-only calendar has no "
     "holidays besides weekends and the null calendar has none at all.",
     "every calendar, weekday and supported date", "Tests never query most of the calendars' names or weekends.", [CAL, "datetime/holiday.rs", "datetime/weekend.rs", "datetime/holidays/nilholiday.rs", "datetime/holidays/weekendsonly.rs"],
     [("dispatch over markets", "src/datetime/holiday.rs")], technique=FD, observe=["Calendar::name, is_weekend, is_holiday"], note=BASE)
prop("C08", "Ad-hoc holidays: every sequence of additions and removals is honoured",
     "A date's status is decided by the last operation naming it: a holiday after it was added, a business day after it was removed, and otherwise (never named, or since a reset) the market's "
     "rules.  is_business_day is the negation of is_holiday; adding or removing a date affects no other date.",
     "every sequence of add/remove/reset operations, every market and date", "The tests never combine additions, removals and resets.", [CAL],
     [("overrides of the rules", "src/datetime/calendar.rs: is_holiday, add_holiday, remove_holiday")], technique=AI, over=("inputs", "histories"),
     observe=["Calendar::is_holiday, is_business_day, add_holiday, remove_holiday"], note=BASE)
CO = [("adjust, advance, count", "src/datetime/calendar.rs")]
prop("C09", "Adjusting a date honours the business-day convention",
     "For every calendar, date and convention the adjusted date is the one the convention defines: the first business day on or after (Following) or on or before (Preceding) the date; their "
     "modified forms switch direction when that leaves the month (or, half-month modified, crosses the 15th); Nearest picks the closer business day, the later one on a tie; Unadjusted changes nothing.",
     "every holiday pattern, supported date and convention", "Tests adjust a few dates on one or two calendars; long holiday runs across month ends do not occur there.", [CAL, "datetime/businessdayconvention.rs"],
     [("adjustment", "src/datetime/calendar.rs: adjust, adjust_with_following")], observe=["Calendar::adjust"], note=BASE + "Search loops are summarised exactly; dates leaving the supported range may be rejected.")
prop("C10", "Advancing a date by business days or periods is exact",
     "Advancing by n days lands on the n-th business day after the date (before it for negative n); by zero it only adjusts; by weeks, months or years it moves by calendar arithmetic and then adjusts, "
     "or, with the end-of-month flag and a start on or after the month's last business day, lands on the last business day of the target month.  All entry points agree.",
     "every holiday pattern, date, length, calendar unit, convention and flag", "Tests advance a few dates with the default convention.", [CAL],
     [("advance", "src/datetime/calendar.rs: advance_by_days, advance_by_period and their with_following forms")], observe=["Calendar::advance_by_days, advance_by_period"],
     note=BASE + "Lengths within +-5,000,000; moves leaving the supported range may be rejected.")
prop("C11", "Counting and listing business days and holidays is exact",
     "The number of business days between two dates counts each business day strictly between them once and the end points as the flags ask, negated when the dates are reversed; two equal dates count once only "
     "when both flags are set.  The holiday and business-day lists contain exactly the matching days of the closed range in order, and reversed ranges are rejected.",
     "every holiday pattern, pair of dates and flags", "Tests count a few fixed ranges.", [CAL], [("counting and listing", "src/datetime/calendar.rs: business_days_between, holiday_list, business_day_list")],
     observe=["Calendar::business_days_between, holiday_list, business_day_list"], note=BASE)
prop("C12", "Business month ends are the last business day of the month",
     "The end of month in business days is the last business day on or before the calendar month end, and a date counts as month end exactly when no business day of its month comes after it.",
     "every holiday pattern and date", "Tests walk one calendar.", [CAL], [("month ends", "src/datetime/calendar.rs: end_of_month, is_end_of_month")], observe=["Calendar::end_of_month, is_end_of_month"], note=BASE)

# ---- day counters ----------------------------------------------------------------------------------
DC = "datetime/daycounter.rs"
prop("Y01", "Simple day counters follow their convention exactly",
     "Actual/360, Actual/366 (with and without the last day), 1/1, Simple and 30/365 return, for every pair of dates, exactly the day count and year fraction their convention defines, whichever constructor "
     "made the counter; calling through the DayCounter dispatcher gives the same result and the right name; nothing panics.",
     "every pair of supported dates, every public constructor", "Tests sample a few ranges, mostly ascending and within ordinary months.",
     [DC, "datetime/daycounters/actual360.rs", "datetime/daycounters/actual366.rs", "datetime/daycounters/one.rs", "datetime/daycounters/simpledaycounter.rs", "datetime/daycounters/thirty365.rs"],
     [("dispatch", "src/datetime/daycounter.rs"), ("formulas", "src/datetime/daycounters/*.rs")], observe=["DayCounter::day_count, year_fraction, name"], note=BASE)
prop("Y02", "30/360 day counts follow their documented rules",
     "The US, bond basis (ISMA), European, Italian, ISDA and NASD variants of 30/360 return, for every ordered or reversed pair of dates, the count defined by their end-of-month rules "
     "(including February ends and the ISDA termination date) and a year fraction of that count over 360.",
     "every pair of supported dates (and termination dates), every public constructor", "Month-end combinations, February and reversed dates make hundreds of cases; tests tabulate a few.",
     [DC, "datetime/daycounters/thirty360.rs"], [("rules", "src/datetime/daycounters/thirty360.rs")], observe=["DayCounter::day_count, year_fraction"], note=BASE)

prop("Y03", "Actual/Actual (ISDA) counts each year at its own length",
     "The ISDA year fraction of an ordered pair of dates is the sum over calendar years of the days falling in that year divided by the year's length, and the negation for reversed pairs; every Actual/Actual "
     "convention counts actual days and carries its convention's name.",
     "every pair of supported dates (spans touching the last supported year may be rejected)", "Tests use a handful of published bond examples.",
     [DC, "datetime/daycounters/actualactual.rs"], [("ISDA fraction", "src/datetime/daycounters/actualactual.rs"), ("names", "src/datetime/daycounter.rs")],
     observe=["DayCounter::year_fraction, day_count, name"], note=BASE + "The ISMA and AFB fractions are covered by other properties or not claimed.")
prop("Y04", "Day counters are equal exactly when they are the same convention",
     "Comparing two day counters with == answers true exactly when the two have the same name, for every pair of public constructors.",
     "every pair of day-count conventions (and parameters)", "Tests never compare counters of different conventions.", [DC],
     [("equality", "src/datetime/daycounter.rs: PartialEq")], observe=["DayCounter == DayCounter"], note=BASE)

# ---- interest rates --------------------------------------------------------------------------------
IR = "rates/interestrate.rs"
prop("R01", "Compound and discount factors follow the compounding convention",
     "For every compounding, frequency, rate and non-negative time the compound factor is the closed form of the convention (mixed conventions switch at one period, inclusive), the discount factor is its "
     "reciprocal, the between-dates forms use the rate's own day counter over those dates, and invalid frequencies, negative times and reversed dates are rejected.",
     "every rate, time, compounding, frequency, day counter and pair of dates", "Tests compare a table of rounded examples, with few switching points.", [IR],
     [("factors", "src/rates/interestrate.rs: compound_factor, discount_factor and between-dates forms"), ("validation", "src/rates/interestrate.rs: InterestRate::new")],
     observe=["InterestRate::new, compound_factor, discount_factor, frequency"], note=BASE + "Real arithmetic for f64.")
prop("R02", "Implied and equivalent rates compound back to what they were implied from",
     "A rate implied from a compound factor over a time (or between dates) carries the requested day counter, compounding and frequency and, compounded over that time, gives back the factor; an equivalent "
     "rate gives the same growth as the original; factors, times and dates for which no rate exists are rejected.",
     "every factor, time, source and target compounding and frequency, day counter and pair of dates", "Tests round-trip a fixed table with a tolerance.", [IR],
     [("implied rates", "src/rates/interestrate.rs: implied_rate, equivalent_rate and between-dates forms")],
     observe=["InterestRate::implied_rate, equivalent_rate"], note=BASE + "Real arithmetic for f64.")

# ---- cash flows ------------------------------------------------------------------------------------
FLOW, COU, FRC, FRL, SIMPLE, BF = ("cashflows/" + n + ".rs" for n in ("cashflow", "coupon", "fixedratecoupon", "fixedrateleg", "simplecashflow", "bondfunctions"))
prop("F01", "A shared cash flow or coupon behaves like the flow it shares",
     "Every method of the CashFlow and Coupon traits called on a reference-counted flow gives what the same call on the flow itself gives: amount, dates, reference period, ex-coupon date, accruals, rate, "
     "nominal, occurrence, ex-coupon trading and discounting time.",
     "every trait method, every pointer implementation, every flow and argument", "A forgotten forwarding method silently falls back to the trait default; no test compares all methods.", [FLOW, COU],
     [("forwarding implementations", "src/cashflows/cashflow.rs, src/cashflows/coupon.rs: impl for Rc<T>")], observe=["CashFlow and Coupon methods on Rc<dyn ..>"], note=BASE)
prop("F02", "A fixed-rate coupon pays and accrues interest exactly for its period",
     "A fixed-rate coupon pays nominal times (compound factor over its accrual period minus one) on its payment date. What has accrued at a date is nothing at or before the accrual start and after the "
     "payment date, otherwise the interest from the accrual start to that date or the accrual end if earlier; while trading ex-coupon it is minus the interest from that date to the accrual end. Accrued days "
     "and periods follow the same rule, measured with the coupon's own day counter and reference period.",
     "every coupon (either constructor, with and without reference period and ex-coupon date) and every date", "Tests look at one coupon per convention, at one date, never past the accrual end with a later payment.", [FRC, COU],
     [("amount and accrual", "src/cashflows/fixedratecoupon.rs: amount, accrued_amount"), ("accrued days and period", "src/cashflows/coupon.rs: accrual_days, accrual_period, accrued_days, accrued_period")],
     observe=["FixedRateCoupon as CashFlow and Coupon"], note=BASE + "Compound factors, year fractions and day counts are uninterpreted functions here (R01, Y01-Y04).")
prop("F03", "A flow has occurred, or trades ex-coupon, exactly from its own dates",
     "A cash flow has occurred at a date when it is paid before that date, or on it when flows of that date are not included; it trades ex-coupon at a date on or after its ex-coupon date if it has one. "
     "Plain flows, redemptions and amortizing payments pay exactly their amount on their date and never accrue nor trade ex-coupon.",
     "every kind of cash flow, every date, both inclusion choices", "Boundary days and every implementor would each need a test.", [FLOW, SIMPLE],
     [("occurrence", "src/cashflows/cashflow.rs: has_occurred, trading_ex_coupon"), ("plain flows", "src/cashflows/simplecashflow.rs")], observe=["CashFlow::has_occurred, trading_ex_coupon"], note=BASE)
prop("F04", "Queries over a leg look at exactly the flows they should",
     "For a leg of any length: the next flow is the first that has not occurred; accrued amount is the sum over the coupons paid on the next flow's date, accrued days and period those of the first of them, "
     "nothing when all have occurred; maturity is the latest accrual end of a leg's coupons or the latest payment date of a leg without; a bond's accrued interest and maturity are those of its leg per 100 of notional.",
     "every leg length, every flow, every date", "A property of loops over legs of any length, with several flows on one day; tests use one regular leg.", [FLOW, BF],
     [("leg queries", "src/cashflows/cashflow.rs: next_cashflow, accrued_amount, accrued_days, accrued_period, maturity_date"), ("bond level", "src/pricingengines/bond/bondfunctions.rs")],
     observe=["cashflow::accrued_*, maturity_date"], note=BASE)
prop("F05", "Present value of a leg is the sum of its pending flows, discounted",
     "The present value of a leg at a yield is the sum over flows that have neither occurred nor trade ex-coupon at settlement of amount times the product of the stepwise discount factors of the pending flows up to it, "
     "each step measured from the previous pending flow, the first from the valuation date (settlement if not given); zero for an empty leg. A bond's dirty price is that value per 100 of notional.",
     "every leg, yield, settlement and valuation date", "Tests price a few regular legs; skipped and ex-coupon flows in the middle of the recurrence are never exercised.", [FLOW, BF],
     [("present value", "src/cashflows/cashflow.rs: npv"), ("dirty price", "src/pricingengines/bond/bondfunctions.rs: dirty_price")], observe=["cashflow::npv"],
     note=BASE + "Discount factors (R01), stepwise times (F07) are uninterpreted here.")
prop("F06", "Modified duration is minus the relative yield sensitivity of the price",
     "For every compounding and frequency the modified duration of a leg is the sum over its payable flows of amount times minus the derivative of the discount factor with respect to the yield, divided by the "
     "leg's present value; mixed conventions switch derivative where the convention switches; zero for empty or worthless legs.",
     "every leg, rate, compounding, frequency, settlement and valuation date", "Tests check one number for one convention.", [FLOW],
     [("derivative loop", "src/cashflows/cashflow.rs: modified_duration")], observe=["cashflow::modified_duration"], note=BASE + "Closed form of the loop by induction; discount factors (R01) uninterpreted.")
prop("F07", "Discounting steps are measured between flows with the right reference period",
     "The discounting time from a date to a flow is the year fraction between that date and the payment date, given the flow's own reference period or, if it has none, the time since the previous flow (one year "
     "before payment when there is none); for a coupon that started accruing on another date it is its whole period minus the part already accrued.",
     "every kind of flow, day counter, last date and valuation date", "Only day counters that look at the reference period reveal a wrong one, and only for irregular periods.", [FLOW],
     [("stepwise time", "src/cashflows/cashflow.rs: get_stepwise_discount_time")], observe=["CashFlow::get_stepwise_discount_time"], note=BASE)
LEG = "cashflows/fixedrateleg.rs"
prop("F08", "A fixed-rate leg has one correct coupon per schedule period",
     "FixedRateLeg::build rejects a leg without rates or notionals and otherwise gives one coupon per schedule period, in order: accruing over that period, paying on its end moved by lag, calendar and convention, with the "
     "notional and rate of that period (the last given one when the list is shorter), a reference period one tenor long for an irregular first or last period, the first/last day counter overrides, and the ex-coupon date if set.",
     "every schedule of two dates or more, every regularity of its ends, lists of rates and notionals of every length, every setting", "A property of a loop over schedules of any length; tests build a few regular legs.", [LEG],
     [("coupon loop", "src/cashflows/fixedrateleg.rs: FixedRateLeg::build")], observe=["FixedRateLeg::build"], note=BASE + "Calendar arithmetic (C09-C12) uninterpreted; schedules satisfy S02.")
prop("F09", "Setters of the fixed-rate leg builder replace exactly what they name",
     "FixedRateLeg::new holds the schedule, notionals and rates given and no setting; each with_ method replaces the parts it names by its argument, whatever they held before, and leaves every other part as it was; "
     "with_coupon_rates gives one rate per number, in order, with the same conventions.",
     "every builder content, every argument, lists of every length", "Order and repetition of setters are a history; tests call each at most once on a fresh builder.", [LEG],
     [("setters", "src/cashflows/fixedrateleg.rs: FixedRateLeg::with_*")], observe=["FixedRateLeg::with_*"], over=("inputs", "histories"), note=BASE)
SCHED = "datetime/schedule.rs"
prop("S01", "The schedule builder passes every setting to the schedule it builds",
     "ScheduleBuilder::build constructs the schedule with the mandatory arguments, and for each optional setting the value last set, or its default: Following, the termination convention equal to the convention, "
     "Backward generation, no end-of-month rule, no stub dates. Setters are independent of each other and of the order they are called in.",
     "every combination of settings, every value", "Settings that get mixed up show only for combinations; tests use a few.", ["datetime/schedulebuilder.rs"],
     [("builder", "src/datetime/schedulebuilder.rs: ScheduleBuilder::build, with_*")], observe=["ScheduleBuilder::build"], over=("inputs", "histories"), note=BASE)
prop("S02", "Twentieths of the month and CDS maturities",
     "previous_twentieth (next_twentieth) is the latest (first) 20th of a month not after (not before) the date; for the rules TwentiethIMM, OldCDS, CDS and CDS2015 only the 20ths of March, June, September and December "
     "count. cds_maturity is the IMM 20th not after the trade date (for CDS2015, when that falls in June or December, three months earlier) moved by the tenor and three months; tenors other than a multiple "
     "of three months, a zero tenor under OldCDS, other rules and maturities not after the trade date are rejected, and a zero CDS2015 tenor in June or December gives the default date.",
     "every date, every rule, every tenor", "The rules turn over at single days of a quarter and of a half-year; tests sample a few trade dates.", [SCHED],
     [("twentieths", "src/datetime/schedule.rs: previous_twentieth, next_twentieth"), ("CDS maturity", "src/datetime/schedule.rs: cds_maturity")],
     observe=["previous_twentieth", "cds_maturity"], technique=FD, note=BASE)
prop("S03", "Searching and truncating schedules",
     "On a schedule of any length, next_date is its first date not before the given date (the evaluation date for the default date) or the default date, previous_date the one before that or the default date; "
     "start, end, size and regularity queries return the stored data and period numbers outside 1..n-1 are rejected. after(d) (until(d)) has exactly the dates not before (not after) d, preceded (followed) by d with an "
     "irregular period when d is not one of them, the regularity of the other periods, calendar, tenor and convention being kept; a d outside the schedule's span leaves it whole or is rejected when nothing would remain.",
     "every schedule, every date", "The result depends on where the date falls among arbitrarily many dates; tests use one schedule and two dates.", [SCHED],
     [("queries", "src/datetime/schedule.rs: Schedule::{next_date, previous_date, is_regular, size, start_date, end_date}"), ("truncation", "src/datetime/schedule.rs: Schedule::{after, until}")],
     observe=["Schedule::after", "Schedule::until", "Schedule::next_date", "Schedule::previous_date"], note=BASE)
BONDF = "instruments/bond.rs"
prop("B01", "What every bond derives from its cash flows and notionals",
     "For a bond of any kind with notionals on any number of dates: the notional in force on a date is the last one whose date is not after it, zero after the last date; the bond is tradeable iff that is not zero; "
     "the accrued amount is the leg's, per 100 of notional in force, zero without notional; settlement is the trade date advanced by the settlement days, never before the issue date; the dirty price for a yield is the leg's "
     "present value at the settlement date per 100 of notional and the clean price that less the accrued amount; the yield is solved for the clean price plus accrual, with the accuracy, evaluations and guess given or their defaults; "
     "prices and yields without notional are rejected.",
     "every bond, notional schedule of any length, every date, price and option", "The notional in force depends on where a date falls in a schedule of any length; tests use bullet bonds on a few dates.", [BONDF],
     [("provided methods", "src/instruments/bond.rs: trait Bond")], observe=["Bond::notional", "Bond::clean_price_from_yield", "Bond::bond_yield", "Bond::settlement_date"], note=BASE + "Leg functions uninterpreted here (F04-F06).")
prop("B02", "A fixed rate bond pays its coupons and its redemption on time",
     "For any schedule, rates and combination of options, a FixedRateBond's cash flows are the coupons of the fixed-rate leg for that schedule, face amount and rates with the payment convention, calendar, first-period day counter and (if completely given) "
     "ex-coupon period asked for, followed by one redemption of face times the redemption percentage (100 by default) on the last coupon's payment date, in date order with ties kept in that order; maturity is the schedule's last date, "
     "the notional is the face until that payment and zero from it, and settlement days, calendar and issue date are those given; a bond without coupons is rejected.",
     "every schedule, list of rates and combination of options", "Options interact pairwise and with the number of coupons; tests build a handful of bonds.", ["instruments/fixedratebond.rs"],
     [("constructor", "src/instruments/fixedratebond.rs: FixedRateBond::{new, new_with_options}")], observe=["FixedRateBond::new_with_options", "Bond::cashflows", "Bond::notionals"], note=BASE + "Leg construction: F08, F09.")
prop("B03", "Zero coupon bonds, stocks and quotes hold what they were made from",
     "A ZeroCouponBond has one cash flow, its redemption of face times the redemption percentage on the maturity adjusted by the payment convention, the face as notional until then and zero from then, and returns its settings as given or their defaults; its price "
     "for a discount yield is 100(1 - y days/360) and its remaining period the days to maturity in months of 30 days, rounded. A Stock's value is that of its quote, and a SimpleQuote's value the one it was made with, always valid.",
     "every calendar, face, maturity, option and date", "Rounded and discounted values and option combinations; tests build one bond.", ["instruments/zerocouponbond.rs", "instruments/stock.rs", "quotes/simplequote.rs"],
     [("zero bond", "ZeroCouponBond"), ("stock", "Stock"), ("quote", "SimpleQuote")], observe=["ZeroCouponBond::new_with_options", "Stock::npv", "Quote::value"], note=BASE)
prop("T01", "What every yield curve derives from its zero rates",
     "For any curve given by zero rates the discount factor at time t is exp(-z(t) t), and 1 at t = 0; the discount factor of a date is that of its time from the reference date; the forward rate over a period from a date is the forward rate "
     "between that date and the date moved by the period, with the same conventions, for every period that stays inside the calendar.",
     "every curve, time, date and period", "Derived quantities of every implementor, present or future; tests have no curve with these.", ["termstructures/yieldtermstructure.rs", "termstructures/zeroyieldstructure.rs"],
     [("curves", "YieldTermStructure, ZeroYieldStructure")], observe=["ZeroYieldStructure::discount", "YieldTermStructure::forward_rate_from_date_period"], note=BASE)
# ---- mathematics -----------------------------------------------------------------------------------
prop("M02", "Linear interpolation follows the chords",
     "For any two or more points with increasing abscissas, the value of a linear interpolation at x is that of the straight line through the two neighbouring points (the end segments extended outside the range), its derivative that line's slope, "
     "its second derivative zero and its primitive the exact integral from the first point; a query outside the range, and not close to an end, is rejected unless extrapolation is asked for.  At a point the segment starting there counts, at the last point the last segment.",
     "every table of points, of any length, and every argument", "A wrong segment at one point, or a primitive table off by one term, shows only for particular arguments and table lengths.",
     ["maths/interpolations/linearinterpolation.rs"],
     [("tables and queries", "LinearInterpolation::new; impl Interpolation")], observe=["Interpolation::value, derivative, primitive"], note=BASE + "Strictly increasing abscissas assumed.")
prop("M03", "Array operations act element by element",
     "Each arithmetic operator and function of Array, on arrays of any length or with a number, gives the array of the element-wise results; dot product and norm are the sums they are defined as; operands of different length and indices outside the array are rejected; swapping exchanges contents.",
     "all arrays of any length and content", "Tests use one array of a few elements.", ["maths/array.rs"], [("operators", "impl Add, Sub, Mul, Div, Neg, Index for Array"), ("functions", "impl Array")],
     observe=["Array operators and methods"], note=BASE)
prop("M04", "Closeness and rounding follow their definitions",
     "Two numbers are close when equal, or within the given multiple of machine epsilon relative to both (close) or one (close_enough) of them, relative to the squared tolerance when one is zero; symmetric in its arguments.  Rounding to p places keeps numbers under no rounding, "
     "truncates under down, goes away from zero under up when anything is cut off, and under closest when the first digit cut off reaches the rounding digit; floor does so for positive, ceiling for negative numbers only.",
     "all pairs of numbers, tolerances, rules, precisions and rounding digits", "Sign, zero and tie cases of each rule are only sampled by tests.", ["maths/comparison.rs", "maths/rounding.rs"],
     [("closeness", "src/maths/comparison.rs"), ("rounding", "Rounding::round")], observe=["close, close_n, close_enough", "Rounding::round"], note=BASE + "No NaN or infinities.")
prop("M05", "Lower and upper bound find the first element past a value",
     "lower_bound (upper_bound) of a slice and a value is the first index whose element is not less than (is greater than) the value, the length when there is none.",
     "all slices of any length and all values", "Positions at the ends and runs of equal elements are only sampled by tests.", ["maths/bounds.rs"],
     [("searches", "src/maths/bounds.rs: lower_bound, upper_bound")], observe=["lower_bound, upper_bound"], note=BASE)
prop("M06", "Lagrange interpolation is the barycentric polynomial through the points",
     "For any two or more points with different abscissas, the value of a Lagrange interpolation at a point's abscissa (within ten machine epsilons) is that point's ordinate and elsewhere the barycentric formula of the second kind with the points' weights; "
     "its derivative is the derivative of that polynomial, at the points and elsewhere; a query outside the range, and not close to an end, is rejected unless extrapolation is asked for.",
     "every table of points, of any length, and every argument", "Coincidence with a node, nodes at zero and table length interact; tests use a few smooth functions.", ["maths/interpolations/lagrangeinterpolation.rs"],
     [("weights and queries", "LagrangeInterpolation::new; impl Interpolation")], observe=["Interpolation::value, derivative"], note=BASE + "Different, increasing abscissas assumed.")
prop("S04", "The schedule constructor rejects exactly the inconsistent arguments",
     "A schedule is generated only from consistent arguments: a termination date other than the default date; an effective date before it, which may be left out (default date) only under Backward generation without first date and with the evaluation date before the termination date; "
     "a tenor length that is not negative, zero standing for rule Zero; a first (next-to-last) date, unless left out or equal to the effective (termination) date, after the effective date and up to the termination date (from the effective date, before the termination date) "
     "under Backward and Forward, an IMM date under ThirdWednesday, and none under the other rules; and no end-of-month request with a positive tenor in months or years under the rules other than Zero, Backward and Forward.",
     "every rule, tenor, end-of-month flag and combination of dates", "Each rule has its own conditions on five dates; tests use a few valid combinations.", [SCHED],
     [("constructor", "src/datetime/schedule.rs: Schedule::new")], observe=["Schedule::new", "ScheduleBuilder::build"], note=BASE)
prop("S05", "A schedule of a single period has the adjusted end dates",
     "Under rule Zero, and under every rule for a tenor of length zero, a schedule has two dates, the effective date adjusted by the convention and the termination date adjusted by the termination convention (not at all when that is Unadjusted), one regular period, a tenor of zero years, "
     "and the calendar, convention and (for positive tenors in months or years) end-of-month flag given; it is rejected when the adjusted dates are not increasing.  Without an effective date the placeholder is the termination date less the least number of years longer than the time to it, counting 366 days a year.",
     "every rule, unit, convention, calendar and combination of dates", "The placeholder date and the treatment of each convention are not reached by tests.", [SCHED],
     [("constructor", "src/datetime/schedule.rs: Schedule::new")], observe=["Schedule::dates", "Schedule::is_regular", "Schedule::tenor"], note=BASE)
prop("U01", "Currencies report their ISO data; money keeps its amount and currency",
     "Every currency type reports the name, code, numeric code and hundred fractions per unit of the ISO 4217 table for its code, and its rounding convention (the euro rounds to the closest hundredth, the others not at all); for arbitrary currency data every accessor returns what was stored; "
     "the data of two of these currencies are equal exactly when the currencies are the same; and money returns the amount and currency it was created with.",
     "every currency type, and arbitrary currency data", "The table is data: a test that compares a sample does not see a wrong entry elsewhere.", ["src/currencies/asia.rs", "src/currencies/europe.rs", "src/currencies/america.rs", "src/currencies/africa.rs", "src/currencies/oceania.rs", "src/currencies/currency.rs", "src/currencies/money.rs"],
     [("currency data", "src/currencies: constructors and accessors")], observe=["Currency::name", "Currency::code", "Currency::numeric_code", "Money::value"], note=BASE)
prop("F10", "A leg has a yield exactly when signs change; the solver gets its value and slope",
     "The yield finder of a leg is constructed exactly when the signs of minus the price and of the amounts still to be paid that are not trading ex-coupon change at least once in the order of the leg, amounts (or a price) of zero having no sign, and is rejected otherwise; its function at a yield is the price minus the "
     "present value of the leg at that yield, its derivative the modified duration; and the yield of a leg is what the given solver returns for that function and derivative with the accuracy and guess given.",
     "every leg, price, yield convention, settlement and valuation date and flag", "Legs with mixed, zero and excluded flows in arbitrary order are not sampled by tests.", ["src/cashflows/irrfinder.rs", "src/cashflows.rs"],
     [("yield finder", "src/cashflows/irrfinder.rs: IrrFinder::check_sign"), ("yield", "src/cashflows.rs: bond_yield")], observe=["bond_yield"], note=BASE)
prop("Y05", "Actual/Actual (ISMA) with a schedule sums the fractions of its coupon periods",
     "The schedule-based counter takes the schedule's dates, an irregular (or unflagged) first date replaced by the second one moved back by the tenor, preceded by that moved back once more when it is later than the first date, and an irregular (or unflagged) last date replaced by the last but one moved on by the tenor, "
     "followed by that moved on once more when it is earlier than the end date (moves in the schedule's calendar, convention and end-of-month rule). The year fraction of ordered dates within the range of that list (others are rejected) is the sum over consecutive dates whose period intersects the interval of the days in both, "
     "over the days of the period times its coupons per year (the rounded quotient of 12 and its rounded length in months), or over the days of the year from the first of them for periods shorter than 16 days.",
     "every schedule of at least two dates, with or without regularity flags, and every pair of dates", "Irregular first and last periods, short and long, combine; tests fix a few schedules.", ["src/datetime/daycounters/actualactual.rs"],
     [("quasi-coupon dates and sum", "src/datetime/daycounters/actualactual.rs: ISMA")], observe=["DayCounter::year_fraction"], note=BASE)
prop("Y06", "Actual/Actual (ISMA) without a schedule follows its reference-period recursion",
     "The year fraction of equal dates is zero; of reversed dates the negative of that of the ordered dates (also for the AFB and schedule-based counters). A reference period with default ends is taken from the dates; it must end after it starts and after the first date, else the call is rejected. With its length m in months (12 days over 365, rounded; "
     "a year from the first date when that is zero) an interval inside the period is m/12 times its share of the days; one that starts before the period is split at its start, the earlier part taken against the previous m months; and one that ends after it is the part up to the end, m/12 for every whole m months that follow, and the remainder against the period it falls in.",
     "every pair of dates and every reference period", "Long first and last coupons recurse over several notional periods.", ["src/datetime/daycounters/actualactual.rs"],
     [("recursion", "src/datetime/daycounters/actualactual.rs: OldISMA")], observe=["DayCounter::year_fraction"], note=BASE)
prop("D12", "IMM codes are valid exactly as listed and convert to and from dates",
     "A string is an IMM code exactly when it is two characters, the first one of FGHJKMNQUVXZ (HMUZ in the main cycle) in either case and the second one a decimal digit; every other string, of whatever length or alphabet, is answered false. The code of an IMM date is the letter of its month and the last digit of its year, and "
     "dates that are not IMM dates are rejected. The date of a code is the first third Wednesday of that month, in a year ending with that digit, on or after the reference date (the evaluation date when that is defaulted); invalid codes are rejected. The next code or date after a date or code is that of the next IMM date.",
     "every string; every date; every code at every reference date up to 2189", "Year digits wrap at decade ends and only some reference dates fall between the IMM date and the month's end.", ["src/datetime/imm.rs"],
     [("validity", "src/datetime/imm.rs: IMM::is_imm_code"), ("codes", "src/datetime/imm.rs: IMM::code, date")], observe=["IMM::is_imm_code", "IMM::code", "IMM::date", "IMM::next_code"], note=BASE)
prop("M01", "A solver only ever works on a bracket within the enforced bounds",
     "Given a bracket, a solver rejects an accuracy that is not positive, ends that are not in increasing order or lie beyond an enforced bound, ends at which the function has the same sign, and a guess that is not strictly between the ends; it returns an end at which the function is (nearly) zero; otherwise the algorithm starts from the guess, on that "
     "bracket, with the true values of the function at its ends, and with the accuracy raised to the machine epsilon. Looking for a bracket, a solver moves the ends only outwards and only to points within the enforced bounds, hands over only a bracket on which the function changes sign, with the true values at its ends, and gives up only once the maximum number of evaluations is reached.",
     "every function, guess, step, accuracy, bound and solver; every number of iterations", "Whether a bracket is valid depends on the function and on how often the search had to grow it.", ["src/maths/solvers1d/solver1d.rs"],
     [("given bracket", "src/maths/solvers1d/solver1d.rs: Solver1D::solve_bracketed"), ("search", "src/maths/solvers1d/solver1d.rs: Solver1D::solve"), ("clamp", "src/maths/solvers1d/solver1d.rs: SolverDetail::enforce_bounds")],
     observe=["Solver1D::solve", "Solver1D::solve_bracketed"], note=BASE + " Real arithmetic; the search is summarised by the relations its iterations preserve.")

prop("M07", "A root returned by a solver is within the accuracy of a zero",
     "Whatever the function, its derivative and the bracket, a value returned by one of the solvers (Brent, Newton safe, finite-difference Newton safe) is one at which the function is (nearly) zero, or an end of an interval no longer than the accuracy (up to rounding) at whose ends the function has opposite signs, or the result of a Newton or secant step "
     "shorter than the accuracy. A solver fails only once its maximum number of evaluations is reached, and has the bounds, the enforcement flags and the maximum number of evaluations it was made with.",
     "every function, derivative, bracket and accuracy; every number of iterations", "Which of the algorithm's branches runs depends on the values of the function met along the way.", ["src/maths/solvers1d/brent.rs", "src/maths/solvers1d/newtonsafe.rs", "src/maths/solvers1d/finitedifferencenewtonsafe.rs"],
     [("Brent", "src/maths/solvers1d/brent.rs: Brent::solve_impl"), ("Newton", "src/maths/solvers1d/newtonsafe.rs: NewtonSafe::solve_impl"), ("secant", "src/maths/solvers1d/finitedifferencenewtonsafe.rs: FiniteDifferenceNewtonSafe::solve_impl")],
     observe=["Solver1D::solve"], note=BASE + " Real arithmetic; the loops are summarised by inductive relations (value of the function at a point, signs at the ends). That the accuracy is reached within the maximum number of evaluations is not claimed.")
prop("S06", "Schedules of several periods step from the seed to the last date",
     "A schedule built from a rule with a tenor and an effective date, without the end-of-month flag, contains, going forwards, the effective date (for CDS rules the previous twentieth, and the one before when that is adjusted beyond it; for twentieth rules also the next twentieth, the one after for old CDS when it is within 30 days), the first date if given, then the dates k tenors after the last of these "
     "in the calendar without holidays, as long as they are not beyond the next-to-last date if given, else the termination date, then these two (for twentieth rules the next twentieth instead); going backwards, the mirror image, with the effective date, in front. A date is left out when it falls on the one added before after adjustment. Third Wednesday rules move the inner (or all) dates "
     "to the third Wednesday of their month. All dates are then adjusted by the convention (the first not for old CDS) and the last by its own convention (not for CDS), a last-but-one date not before the last and a second date not after the first are merged into it, and a single remaining date is rejected. "
     "Each period is flagged regular exactly when it is a whole step, or a first or last stub that happens to be one.",
     "every calendar, convention, tenor length, and effective, first, next-to-last and termination date, however many periods", "The number of dates is unbounded, and which are left out or merged depends on the holidays.", ["src/datetime/schedule.rs"],
     [("construction", "src/datetime/schedule.rs: Schedule::new")], observe=["Schedule::dates", "Schedule::is_regular"], note=BASE + " The calendar's adjustment, its steps and the twentieths are those of C09, C11 and S02. Not covered here: a placeholder for a missing effective date (S05 covers it for single periods), both a first and a next-to-last date, tenors in days or weeks (only the unit passed to the calendar differs).")


def main():
    import sys
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    import run
    run.load_checks()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["json"]) + "\n")
    checks, na = [], []
    for p in PROPS:
        pid = p["pid"]
        if pid in NA:
            na.append(dict(property=pid, reason=NA[pid]))
        elif pid in run.REG:
            checks.append(dict(property=pid, quick_cmd="python3 lib/main.py " + pid, thorough_cmd="python3 lib/main.py " + pid,
                               evidence_file="evidence/%s.json" % pid, technique=p["technique"], level="other", level_note=p["note"] or BASE))
        else:
            na.append(dict(property=pid, reason="no check built yet"))
    m = dict(version=1, setup_cmd="python3 lib/main.py setup", checks=checks, not_applicable=na,
             notes="All checks are static: MIR of /repo's current source, dumped by a rustc driver, abstractly interpreted; nothing of /repo is executed.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    ids = {p["pid"] for p in PROPS}
    assert set(run.REG) <= ids, set(run.REG) - ids
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
