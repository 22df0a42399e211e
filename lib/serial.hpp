// instantiates what saves and loads each type, with archives that are declared only
#pragma once
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/split_member.hpp>
namespace verif_uses {
    struct saver {
        typedef std::true_type is_saving; typedef std::false_type is_loading;
        template<typename t_> saver &operator&(const t_ &); template<typename t_> saver &operator<<(const t_ &);
        template<typename t_> void register_type(const t_ * = nullptr);
    };
    struct loader {
        typedef std::false_type is_saving; typedef std::true_type is_loading;
        template<typename t_> loader &operator&(t_ &&); template<typename t_> loader &operator>>(t_ &&);
        template<typename t_> void register_type(const t_ * = nullptr);
    };
    template<typename t_> void archived(saver &a, loader &b, t_ &x) {
        boost::serialization::serialize_adl(a, x, 0u);
        boost::serialization::serialize_adl(b, x, 0u);
    }
}
#define ARCHIVED(...) template void verif_uses::archived<__VA_ARGS__>(verif_uses::saver &, verif_uses::loader &, __VA_ARGS__ &);
ARCHIVED(esl::quantity)
ARCHIVED(esl::identity<esl::agent>)
ARCHIVED(esl::entity<esl::agent>)
ARCHIVED(esl::economics::price)
ARCHIVED(esl::economics::iso_4217)
ARCHIVED(esl::geography::iso_3166_1_alpha_2)
ARCHIVED(esl::economics::rate<std::uint64_t>)
ARCHIVED(esl::economics::interest_rate)
ARCHIVED(esl::economics::exchange_rate)
ARCHIVED(esl::economics::markets::quote)
ARCHIVED(esl::mathematics::interval<int>)
ARCHIVED(esl::simulation::time_interval)
ARCHIVED(esl::economics::finance::share_class)
ARCHIVED(esl::interaction::header)
ARCHIVED(esl::interaction::transfer)
ARCHIVED(esl::economics::finance::dividend_policy)
ARCHIVED(esl::economics::finance::dividend_announcement_message)
ARCHIVED(esl::economics::finance::dividend_record)
ARCHIVED(esl::economics::accounting::inventory_filter<esl::law::property>)
ARCHIVED(esl::law::property)
ARCHIVED(esl::law::contract)
ARCHIVED(esl::economics::asset)
ARCHIVED(esl::economics::finance::security)
ARCHIVED(esl::economics::finance::stock)
ARCHIVED(esl::economics::finance::loan)
ARCHIVED(esl::economics::company)
ARCHIVED(esl::economics::finance::shareholder)
ARCHIVED(esl::economics::finance::bondholder)
ARCHIVED(esl::law::legal_person)
ARCHIVED(esl::law::legal_entity)
ARCHIVED(esl::law::natural_person)
ARCHIVED(esl::law::government)
ARCHIVED(esl::law::organization)
ARCHIVED(esl::law::jurisdiction)
ARCHIVED(esl::agent)
ARCHIVED(esl::interaction::communicator)
ARCHIVED(esl::data::producer)
ARCHIVED(esl::data::output<double>)
ARCHIVED(esl::data::output_base)
ARCHIVED(esl::economics::accounting::standard)
ARCHIVED(esl::simulation::parameter::parametrization)
ARCHIVED(esl::simulation::parameter::constant<int>)
ARCHIVED(esl::computation::agent_timing)
ARCHIVED(esl::economics::market)
ARCHIVED(esl::economics::markets::centralized_exchange)
ARCHIVED(esl::economics::markets::logon_message)
ARCHIVED(esl::economics::markets::logout_message)
ARCHIVED(esl::economics::markets::market_data_request_message)
ARCHIVED(esl::economics::markets::order_status_request_message)
ARCHIVED(esl::economics::markets::walras::quote_message)
ARCHIVED(esl::economics::markets::walras::differentiable_order_message)
ARCHIVED(esl::economics::markets::walras::price_setter)
ARCHIVED(esl::economics::markets::impact_function::order_message)
ARCHIVED(esl::economics::markets::impact_function::market)
ARCHIVED(esl::law::owner<esl::law::property>)
ARCHIVED(esl::law::owner<esl::economics::cash>)
ARCHIVED(esl::economics::money)
ARCHIVED(esl::economics::cash)
ARCHIVED(esl::computation::distributed::activation)
ARCHIVED(esl::computation::distributed::migration)
ARCHIVED(esl::computation::distributed::deactivation)
typedef std::tuple<std::uint64_t, std::int64_t, esl::economics::price> verif_tuple_3;
ARCHIVED(boost::rational<std::int64_t>)
ARCHIVED(boost::rational<std::uint64_t>)
ARCHIVED(verif_tuple_3)
