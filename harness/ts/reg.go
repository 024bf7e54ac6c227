// Code generated by tools/gen_ts.py. DO NOT EDIT.

package ts

import (
	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/brightnesssensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/channelpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/colorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/extendretractpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/inputselectpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lockunlockpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/microphonepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/motionsensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/ptzpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/temperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"google.golang.org/grpc"
)

func init() {
	services = []*Service{
		{Pkg: "accesspb", Short: "Api", Name: "AccessApi", Desc: &traits.AccessApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return accesspb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAccessApiClient(cc) },
			Wrap:      func(s any) Wrapped { return accesspb.WrapApi(s.(traits.AccessApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*accesspb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*accesspb.ApiRouter).AddAccessApiClient(n, c.(traits.AccessApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*accesspb.ApiRouter).RemoveAccessApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*accesspb.ApiRouter).GetAccessApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return accesspb.WithAccessApiClientFactory(func(n string) (traits.AccessApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.AccessApiClient), err
				})
			},
		},
		{Pkg: "airqualitysensorpb", Short: "Api", Name: "AirQualitySensorApi", Desc: &traits.AirQualitySensorApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return airqualitysensorpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirQualitySensorApiClient(cc) },
			Wrap:      func(s any) Wrapped { return airqualitysensorpb.WrapApi(s.(traits.AirQualitySensorApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*airqualitysensorpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*airqualitysensorpb.ApiRouter).AddAirQualitySensorApiClient(n, c.(traits.AirQualitySensorApiClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*airqualitysensorpb.ApiRouter).RemoveAirQualitySensorApiClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*airqualitysensorpb.ApiRouter).GetAirQualitySensorApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return airqualitysensorpb.WithAirQualitySensorApiClientFactory(func(n string) (traits.AirQualitySensorApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.AirQualitySensorApiClient), err
				})
			},
		},
		{Pkg: "airqualitysensorpb", Short: "Info", Name: "AirQualitySensorInfo", Desc: &traits.AirQualitySensorInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return airqualitysensorpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirQualitySensorInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return airqualitysensorpb.WrapInfo(s.(traits.AirQualitySensorInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*airqualitysensorpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*airqualitysensorpb.InfoRouter).AddAirQualitySensorInfoClient(n, c.(traits.AirQualitySensorInfoClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*airqualitysensorpb.InfoRouter).RemoveAirQualitySensorInfoClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*airqualitysensorpb.InfoRouter).GetAirQualitySensorInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return airqualitysensorpb.WithAirQualitySensorInfoClientFactory(func(n string) (traits.AirQualitySensorInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.AirQualitySensorInfoClient), err
				})
			},
		},
		{Pkg: "airtemperaturepb", Short: "Api", Name: "AirTemperatureApi", Desc: &traits.AirTemperatureApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return airtemperaturepb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirTemperatureApiClient(cc) },
			Wrap:      func(s any) Wrapped { return airtemperaturepb.WrapApi(s.(traits.AirTemperatureApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*airtemperaturepb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*airtemperaturepb.ApiRouter).AddAirTemperatureApiClient(n, c.(traits.AirTemperatureApiClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*airtemperaturepb.ApiRouter).RemoveAirTemperatureApiClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*airtemperaturepb.ApiRouter).GetAirTemperatureApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return airtemperaturepb.WithAirTemperatureApiClientFactory(func(n string) (traits.AirTemperatureApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.AirTemperatureApiClient), err
				})
			},
		},
		{Pkg: "airtemperaturepb", Short: "Info", Name: "AirTemperatureInfo", Desc: &traits.AirTemperatureInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return airtemperaturepb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirTemperatureInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return airtemperaturepb.WrapInfo(s.(traits.AirTemperatureInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*airtemperaturepb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*airtemperaturepb.InfoRouter).AddAirTemperatureInfoClient(n, c.(traits.AirTemperatureInfoClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*airtemperaturepb.InfoRouter).RemoveAirTemperatureInfoClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*airtemperaturepb.InfoRouter).GetAirTemperatureInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return airtemperaturepb.WithAirTemperatureInfoClientFactory(func(n string) (traits.AirTemperatureInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.AirTemperatureInfoClient), err
				})
			},
		},
		{Pkg: "bookingpb", Short: "Api", Name: "BookingApi", Desc: &traits.BookingApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return bookingpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBookingApiClient(cc) },
			Wrap:      func(s any) Wrapped { return bookingpb.WrapApi(s.(traits.BookingApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*bookingpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*bookingpb.ApiRouter).AddBookingApiClient(n, c.(traits.BookingApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*bookingpb.ApiRouter).RemoveBookingApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*bookingpb.ApiRouter).GetBookingApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return bookingpb.WithBookingApiClientFactory(func(n string) (traits.BookingApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.BookingApiClient), err
				})
			},
		},
		{Pkg: "bookingpb", Short: "Info", Name: "BookingInfo", Desc: &traits.BookingInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return bookingpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBookingInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return bookingpb.WrapInfo(s.(traits.BookingInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*bookingpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*bookingpb.InfoRouter).AddBookingInfoClient(n, c.(traits.BookingInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*bookingpb.InfoRouter).RemoveBookingInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*bookingpb.InfoRouter).GetBookingInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return bookingpb.WithBookingInfoClientFactory(func(n string) (traits.BookingInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.BookingInfoClient), err
				})
			},
		},
		{Pkg: "brightnesssensorpb", Short: "Api", Name: "BrightnessSensorApi", Desc: &traits.BrightnessSensorApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return brightnesssensorpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBrightnessSensorApiClient(cc) },
			Wrap:      func(s any) Wrapped { return brightnesssensorpb.WrapApi(s.(traits.BrightnessSensorApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*brightnesssensorpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*brightnesssensorpb.ApiRouter).AddBrightnessSensorApiClient(n, c.(traits.BrightnessSensorApiClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*brightnesssensorpb.ApiRouter).RemoveBrightnessSensorApiClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*brightnesssensorpb.ApiRouter).GetBrightnessSensorApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return brightnesssensorpb.WithBrightnessSensorApiClientFactory(func(n string) (traits.BrightnessSensorApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.BrightnessSensorApiClient), err
				})
			},
		},
		{Pkg: "brightnesssensorpb", Short: "Info", Name: "BrightnessSensorInfo", Desc: &traits.BrightnessSensorInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return brightnesssensorpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBrightnessSensorInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return brightnesssensorpb.WrapInfo(s.(traits.BrightnessSensorInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*brightnesssensorpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*brightnesssensorpb.InfoRouter).AddBrightnessSensorInfoClient(n, c.(traits.BrightnessSensorInfoClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*brightnesssensorpb.InfoRouter).RemoveBrightnessSensorInfoClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*brightnesssensorpb.InfoRouter).GetBrightnessSensorInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return brightnesssensorpb.WithBrightnessSensorInfoClientFactory(func(n string) (traits.BrightnessSensorInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.BrightnessSensorInfoClient), err
				})
			},
		},
		{Pkg: "channelpb", Short: "Api", Name: "ChannelApi", Desc: &traits.ChannelApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return channelpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewChannelApiClient(cc) },
			Wrap:      func(s any) Wrapped { return channelpb.WrapApi(s.(traits.ChannelApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*channelpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*channelpb.ApiRouter).AddChannelApiClient(n, c.(traits.ChannelApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*channelpb.ApiRouter).RemoveChannelApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*channelpb.ApiRouter).GetChannelApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return channelpb.WithChannelApiClientFactory(func(n string) (traits.ChannelApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ChannelApiClient), err
				})
			},
		},
		{Pkg: "channelpb", Short: "Info", Name: "ChannelInfo", Desc: &traits.ChannelInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return channelpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewChannelInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return channelpb.WrapInfo(s.(traits.ChannelInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*channelpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*channelpb.InfoRouter).AddChannelInfoClient(n, c.(traits.ChannelInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*channelpb.InfoRouter).RemoveChannelInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*channelpb.InfoRouter).GetChannelInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return channelpb.WithChannelInfoClientFactory(func(n string) (traits.ChannelInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ChannelInfoClient), err
				})
			},
		},
		{Pkg: "colorpb", Short: "Api", Name: "ColorApi", Desc: &traits.ColorApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return colorpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewColorApiClient(cc) },
			Wrap:      func(s any) Wrapped { return colorpb.WrapApi(s.(traits.ColorApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*colorpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*colorpb.ApiRouter).AddColorApiClient(n, c.(traits.ColorApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*colorpb.ApiRouter).RemoveColorApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*colorpb.ApiRouter).GetColorApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return colorpb.WithColorApiClientFactory(func(n string) (traits.ColorApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ColorApiClient), err
				})
			},
		},
		{Pkg: "colorpb", Short: "Info", Name: "ColorInfo", Desc: &traits.ColorInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return colorpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewColorInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return colorpb.WrapInfo(s.(traits.ColorInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*colorpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*colorpb.InfoRouter).AddColorInfoClient(n, c.(traits.ColorInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*colorpb.InfoRouter).RemoveColorInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*colorpb.InfoRouter).GetColorInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return colorpb.WithColorInfoClientFactory(func(n string) (traits.ColorInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ColorInfoClient), err
				})
			},
		},
		{Pkg: "countpb", Short: "Api", Name: "CountApi", Desc: &traits.CountApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return countpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewCountApiClient(cc) },
			Wrap:      func(s any) Wrapped { return countpb.WrapApi(s.(traits.CountApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*countpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*countpb.ApiRouter).AddCountApiClient(n, c.(traits.CountApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*countpb.ApiRouter).RemoveCountApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*countpb.ApiRouter).GetCountApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return countpb.WithCountApiClientFactory(func(n string) (traits.CountApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.CountApiClient), err
				})
			},
		},
		{Pkg: "countpb", Short: "Info", Name: "CountInfo", Desc: &traits.CountInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return countpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewCountInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return countpb.WrapInfo(s.(traits.CountInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*countpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*countpb.InfoRouter).AddCountInfoClient(n, c.(traits.CountInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*countpb.InfoRouter).RemoveCountInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*countpb.InfoRouter).GetCountInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return countpb.WithCountInfoClientFactory(func(n string) (traits.CountInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.CountInfoClient), err
				})
			},
		},
		{Pkg: "electricpb", Short: "Api", Name: "ElectricApi", Desc: &traits.ElectricApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return electricpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewElectricApiClient(cc) },
			Wrap:      func(s any) Wrapped { return electricpb.WrapApi(s.(traits.ElectricApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*electricpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*electricpb.ApiRouter).AddElectricApiClient(n, c.(traits.ElectricApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*electricpb.ApiRouter).RemoveElectricApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*electricpb.ApiRouter).GetElectricApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return electricpb.WithElectricApiClientFactory(func(n string) (traits.ElectricApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ElectricApiClient), err
				})
			},
		},
		{Pkg: "electricpb", Short: "Info", Name: "ElectricInfo", Desc: &traits.ElectricInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return electricpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewElectricInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return electricpb.WrapInfo(s.(traits.ElectricInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*electricpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*electricpb.InfoRouter).AddElectricInfoClient(n, c.(traits.ElectricInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*electricpb.InfoRouter).RemoveElectricInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*electricpb.InfoRouter).GetElectricInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return electricpb.WithElectricInfoClientFactory(func(n string) (traits.ElectricInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ElectricInfoClient), err
				})
			},
		},
		{Pkg: "electricpb", Short: "MemorySettingsApi", Name: "MemorySettingsApi", Desc: &electricpb.MemorySettingsApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return electricpb.NewMemorySettingsApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return electricpb.NewMemorySettingsApiClient(cc) },
			Wrap:      func(s any) Wrapped { return electricpb.WrapMemorySettingsApi(s.(electricpb.MemorySettingsApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*electricpb.MemorySettingsApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*electricpb.MemorySettingsApiRouter).AddMemorySettingsApiClient(n, c.(electricpb.MemorySettingsApiClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*electricpb.MemorySettingsApiRouter).RemoveMemorySettingsApiClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*electricpb.MemorySettingsApiRouter).GetMemorySettingsApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return electricpb.WithMemorySettingsApiClientFactory(func(n string) (electricpb.MemorySettingsApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(electricpb.MemorySettingsApiClient), err
				})
			},
		},
		{Pkg: "emergencypb", Short: "Api", Name: "EmergencyApi", Desc: &traits.EmergencyApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return emergencypb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEmergencyApiClient(cc) },
			Wrap:      func(s any) Wrapped { return emergencypb.WrapApi(s.(traits.EmergencyApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*emergencypb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*emergencypb.ApiRouter).AddEmergencyApiClient(n, c.(traits.EmergencyApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*emergencypb.ApiRouter).RemoveEmergencyApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*emergencypb.ApiRouter).GetEmergencyApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return emergencypb.WithEmergencyApiClientFactory(func(n string) (traits.EmergencyApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.EmergencyApiClient), err
				})
			},
		},
		{Pkg: "emergencypb", Short: "Info", Name: "EmergencyInfo", Desc: &traits.EmergencyInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return emergencypb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEmergencyInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return emergencypb.WrapInfo(s.(traits.EmergencyInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*emergencypb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*emergencypb.InfoRouter).AddEmergencyInfoClient(n, c.(traits.EmergencyInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*emergencypb.InfoRouter).RemoveEmergencyInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*emergencypb.InfoRouter).GetEmergencyInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return emergencypb.WithEmergencyInfoClientFactory(func(n string) (traits.EmergencyInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.EmergencyInfoClient), err
				})
			},
		},
		{Pkg: "energystoragepb", Short: "Api", Name: "EnergyStorageApi", Desc: &traits.EnergyStorageApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return energystoragepb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnergyStorageApiClient(cc) },
			Wrap:      func(s any) Wrapped { return energystoragepb.WrapApi(s.(traits.EnergyStorageApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*energystoragepb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*energystoragepb.ApiRouter).AddEnergyStorageApiClient(n, c.(traits.EnergyStorageApiClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*energystoragepb.ApiRouter).RemoveEnergyStorageApiClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*energystoragepb.ApiRouter).GetEnergyStorageApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return energystoragepb.WithEnergyStorageApiClientFactory(func(n string) (traits.EnergyStorageApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.EnergyStorageApiClient), err
				})
			},
		},
		{Pkg: "energystoragepb", Short: "Info", Name: "EnergyStorageInfo", Desc: &traits.EnergyStorageInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return energystoragepb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnergyStorageInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return energystoragepb.WrapInfo(s.(traits.EnergyStorageInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*energystoragepb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*energystoragepb.InfoRouter).AddEnergyStorageInfoClient(n, c.(traits.EnergyStorageInfoClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*energystoragepb.InfoRouter).RemoveEnergyStorageInfoClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*energystoragepb.InfoRouter).GetEnergyStorageInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return energystoragepb.WithEnergyStorageInfoClientFactory(func(n string) (traits.EnergyStorageInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.EnergyStorageInfoClient), err
				})
			},
		},
		{Pkg: "enterleavesensorpb", Short: "Api", Name: "EnterLeaveSensorApi", Desc: &traits.EnterLeaveSensorApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return enterleavesensorpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorApiClient(cc) },
			Wrap:      func(s any) Wrapped { return enterleavesensorpb.WrapApi(s.(traits.EnterLeaveSensorApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*enterleavesensorpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*enterleavesensorpb.ApiRouter).AddEnterLeaveSensorApiClient(n, c.(traits.EnterLeaveSensorApiClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*enterleavesensorpb.ApiRouter).RemoveEnterLeaveSensorApiClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*enterleavesensorpb.ApiRouter).GetEnterLeaveSensorApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return enterleavesensorpb.WithEnterLeaveSensorApiClientFactory(func(n string) (traits.EnterLeaveSensorApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.EnterLeaveSensorApiClient), err
				})
			},
		},
		{Pkg: "enterleavesensorpb", Short: "Info", Name: "EnterLeaveSensorInfo", Desc: &traits.EnterLeaveSensorInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return enterleavesensorpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return enterleavesensorpb.WrapInfo(s.(traits.EnterLeaveSensorInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*enterleavesensorpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*enterleavesensorpb.InfoRouter).AddEnterLeaveSensorInfoClient(n, c.(traits.EnterLeaveSensorInfoClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*enterleavesensorpb.InfoRouter).RemoveEnterLeaveSensorInfoClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*enterleavesensorpb.InfoRouter).GetEnterLeaveSensorInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return enterleavesensorpb.WithEnterLeaveSensorInfoClientFactory(func(n string) (traits.EnterLeaveSensorInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.EnterLeaveSensorInfoClient), err
				})
			},
		},
		{Pkg: "extendretractpb", Short: "Api", Name: "ExtendRetractApi", Desc: &traits.ExtendRetractApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return extendretractpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewExtendRetractApiClient(cc) },
			Wrap:      func(s any) Wrapped { return extendretractpb.WrapApi(s.(traits.ExtendRetractApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*extendretractpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*extendretractpb.ApiRouter).AddExtendRetractApiClient(n, c.(traits.ExtendRetractApiClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*extendretractpb.ApiRouter).RemoveExtendRetractApiClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*extendretractpb.ApiRouter).GetExtendRetractApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return extendretractpb.WithExtendRetractApiClientFactory(func(n string) (traits.ExtendRetractApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ExtendRetractApiClient), err
				})
			},
		},
		{Pkg: "extendretractpb", Short: "Info", Name: "ExtendRetractInfo", Desc: &traits.ExtendRetractInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return extendretractpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewExtendRetractInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return extendretractpb.WrapInfo(s.(traits.ExtendRetractInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*extendretractpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*extendretractpb.InfoRouter).AddExtendRetractInfoClient(n, c.(traits.ExtendRetractInfoClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*extendretractpb.InfoRouter).RemoveExtendRetractInfoClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*extendretractpb.InfoRouter).GetExtendRetractInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return extendretractpb.WithExtendRetractInfoClientFactory(func(n string) (traits.ExtendRetractInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ExtendRetractInfoClient), err
				})
			},
		},
		{Pkg: "fanspeedpb", Short: "Api", Name: "FanSpeedApi", Desc: &traits.FanSpeedApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return fanspeedpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewFanSpeedApiClient(cc) },
			Wrap:      func(s any) Wrapped { return fanspeedpb.WrapApi(s.(traits.FanSpeedApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*fanspeedpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*fanspeedpb.ApiRouter).AddFanSpeedApiClient(n, c.(traits.FanSpeedApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*fanspeedpb.ApiRouter).RemoveFanSpeedApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*fanspeedpb.ApiRouter).GetFanSpeedApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return fanspeedpb.WithFanSpeedApiClientFactory(func(n string) (traits.FanSpeedApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.FanSpeedApiClient), err
				})
			},
		},
		{Pkg: "fanspeedpb", Short: "Info", Name: "FanSpeedInfo", Desc: &traits.FanSpeedInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return fanspeedpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewFanSpeedInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return fanspeedpb.WrapInfo(s.(traits.FanSpeedInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*fanspeedpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*fanspeedpb.InfoRouter).AddFanSpeedInfoClient(n, c.(traits.FanSpeedInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*fanspeedpb.InfoRouter).RemoveFanSpeedInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*fanspeedpb.InfoRouter).GetFanSpeedInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return fanspeedpb.WithFanSpeedInfoClientFactory(func(n string) (traits.FanSpeedInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.FanSpeedInfoClient), err
				})
			},
		},
		{Pkg: "hailpb", Short: "Api", Name: "HailApi", Desc: &traits.HailApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return hailpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewHailApiClient(cc) },
			Wrap:      func(s any) Wrapped { return hailpb.WrapApi(s.(traits.HailApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*hailpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*hailpb.ApiRouter).AddHailApiClient(n, c.(traits.HailApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*hailpb.ApiRouter).RemoveHailApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*hailpb.ApiRouter).GetHailApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return hailpb.WithHailApiClientFactory(func(n string) (traits.HailApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.HailApiClient), err
				})
			},
		},
		{Pkg: "hailpb", Short: "Info", Name: "HailInfo", Desc: &traits.HailInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return hailpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewHailInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return hailpb.WrapInfo(s.(traits.HailInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*hailpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*hailpb.InfoRouter).AddHailInfoClient(n, c.(traits.HailInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*hailpb.InfoRouter).RemoveHailInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*hailpb.InfoRouter).GetHailInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return hailpb.WithHailInfoClientFactory(func(n string) (traits.HailInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.HailInfoClient), err
				})
			},
		},
		{Pkg: "inputselectpb", Short: "Api", Name: "InputSelectApi", Desc: &traits.InputSelectApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return inputselectpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewInputSelectApiClient(cc) },
			Wrap:      func(s any) Wrapped { return inputselectpb.WrapApi(s.(traits.InputSelectApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*inputselectpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*inputselectpb.ApiRouter).AddInputSelectApiClient(n, c.(traits.InputSelectApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*inputselectpb.ApiRouter).RemoveInputSelectApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*inputselectpb.ApiRouter).GetInputSelectApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return inputselectpb.WithInputSelectApiClientFactory(func(n string) (traits.InputSelectApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.InputSelectApiClient), err
				})
			},
		},
		{Pkg: "inputselectpb", Short: "Info", Name: "InputSelectInfo", Desc: &traits.InputSelectInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return inputselectpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewInputSelectInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return inputselectpb.WrapInfo(s.(traits.InputSelectInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*inputselectpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*inputselectpb.InfoRouter).AddInputSelectInfoClient(n, c.(traits.InputSelectInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*inputselectpb.InfoRouter).RemoveInputSelectInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*inputselectpb.InfoRouter).GetInputSelectInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return inputselectpb.WithInputSelectInfoClientFactory(func(n string) (traits.InputSelectInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.InputSelectInfoClient), err
				})
			},
		},
		{Pkg: "lightpb", Short: "Api", Name: "LightApi", Desc: &traits.LightApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return lightpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLightApiClient(cc) },
			Wrap:      func(s any) Wrapped { return lightpb.WrapApi(s.(traits.LightApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*lightpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*lightpb.ApiRouter).AddLightApiClient(n, c.(traits.LightApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*lightpb.ApiRouter).RemoveLightApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*lightpb.ApiRouter).GetLightApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return lightpb.WithLightApiClientFactory(func(n string) (traits.LightApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.LightApiClient), err
				})
			},
		},
		{Pkg: "lightpb", Short: "Info", Name: "LightInfo", Desc: &traits.LightInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return lightpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLightInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return lightpb.WrapInfo(s.(traits.LightInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*lightpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*lightpb.InfoRouter).AddLightInfoClient(n, c.(traits.LightInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*lightpb.InfoRouter).RemoveLightInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*lightpb.InfoRouter).GetLightInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return lightpb.WithLightInfoClientFactory(func(n string) (traits.LightInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.LightInfoClient), err
				})
			},
		},
		{Pkg: "lockunlockpb", Short: "Api", Name: "LockUnlockApi", Desc: &traits.LockUnlockApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return lockunlockpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLockUnlockApiClient(cc) },
			Wrap:      func(s any) Wrapped { return lockunlockpb.WrapApi(s.(traits.LockUnlockApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*lockunlockpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*lockunlockpb.ApiRouter).AddLockUnlockApiClient(n, c.(traits.LockUnlockApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*lockunlockpb.ApiRouter).RemoveLockUnlockApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*lockunlockpb.ApiRouter).GetLockUnlockApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return lockunlockpb.WithLockUnlockApiClientFactory(func(n string) (traits.LockUnlockApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.LockUnlockApiClient), err
				})
			},
		},
		{Pkg: "lockunlockpb", Short: "Info", Name: "LockUnlockInfo", Desc: &traits.LockUnlockInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return lockunlockpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLockUnlockInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return lockunlockpb.WrapInfo(s.(traits.LockUnlockInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*lockunlockpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*lockunlockpb.InfoRouter).AddLockUnlockInfoClient(n, c.(traits.LockUnlockInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*lockunlockpb.InfoRouter).RemoveLockUnlockInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*lockunlockpb.InfoRouter).GetLockUnlockInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return lockunlockpb.WithLockUnlockInfoClientFactory(func(n string) (traits.LockUnlockInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.LockUnlockInfoClient), err
				})
			},
		},
		{Pkg: "metadatapb", Short: "Api", Name: "MetadataApi", Desc: &traits.MetadataApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return metadatapb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMetadataApiClient(cc) },
			Wrap:      func(s any) Wrapped { return metadatapb.WrapApi(s.(traits.MetadataApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*metadatapb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*metadatapb.ApiRouter).AddMetadataApiClient(n, c.(traits.MetadataApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*metadatapb.ApiRouter).RemoveMetadataApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*metadatapb.ApiRouter).GetMetadataApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return metadatapb.WithMetadataApiClientFactory(func(n string) (traits.MetadataApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.MetadataApiClient), err
				})
			},
		},
		{Pkg: "metadatapb", Short: "Info", Name: "MetadataInfo", Desc: &traits.MetadataInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return metadatapb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMetadataInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return metadatapb.WrapInfo(s.(traits.MetadataInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*metadatapb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*metadatapb.InfoRouter).AddMetadataInfoClient(n, c.(traits.MetadataInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*metadatapb.InfoRouter).RemoveMetadataInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*metadatapb.InfoRouter).GetMetadataInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return metadatapb.WithMetadataInfoClientFactory(func(n string) (traits.MetadataInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.MetadataInfoClient), err
				})
			},
		},
		{Pkg: "meterpb", Short: "Api", Name: "MeterApi", Desc: &traits.MeterApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return meterpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMeterApiClient(cc) },
			Wrap:      func(s any) Wrapped { return meterpb.WrapApi(s.(traits.MeterApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*meterpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*meterpb.ApiRouter).AddMeterApiClient(n, c.(traits.MeterApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*meterpb.ApiRouter).RemoveMeterApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*meterpb.ApiRouter).GetMeterApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return meterpb.WithMeterApiClientFactory(func(n string) (traits.MeterApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.MeterApiClient), err
				})
			},
		},
		{Pkg: "meterpb", Short: "Info", Name: "MeterInfo", Desc: &traits.MeterInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return meterpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMeterInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return meterpb.WrapInfo(s.(traits.MeterInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*meterpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*meterpb.InfoRouter).AddMeterInfoClient(n, c.(traits.MeterInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*meterpb.InfoRouter).RemoveMeterInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*meterpb.InfoRouter).GetMeterInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return meterpb.WithMeterInfoClientFactory(func(n string) (traits.MeterInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.MeterInfoClient), err
				})
			},
		},
		{Pkg: "microphonepb", Short: "Api", Name: "MicrophoneApi", Desc: &traits.MicrophoneApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return microphonepb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMicrophoneApiClient(cc) },
			Wrap:      func(s any) Wrapped { return microphonepb.WrapApi(s.(traits.MicrophoneApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*microphonepb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*microphonepb.ApiRouter).AddMicrophoneApiClient(n, c.(traits.MicrophoneApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*microphonepb.ApiRouter).RemoveMicrophoneApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*microphonepb.ApiRouter).GetMicrophoneApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return microphonepb.WithMicrophoneApiClientFactory(func(n string) (traits.MicrophoneApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.MicrophoneApiClient), err
				})
			},
		},
		{Pkg: "microphonepb", Short: "Info", Name: "MicrophoneInfo", Desc: &traits.MicrophoneInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return microphonepb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMicrophoneInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return microphonepb.WrapInfo(s.(traits.MicrophoneInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*microphonepb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*microphonepb.InfoRouter).AddMicrophoneInfoClient(n, c.(traits.MicrophoneInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*microphonepb.InfoRouter).RemoveMicrophoneInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*microphonepb.InfoRouter).GetMicrophoneInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return microphonepb.WithMicrophoneInfoClientFactory(func(n string) (traits.MicrophoneInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.MicrophoneInfoClient), err
				})
			},
		},
		{Pkg: "modepb", Short: "Api", Name: "ModeApi", Desc: &traits.ModeApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return modepb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewModeApiClient(cc) },
			Wrap:      func(s any) Wrapped { return modepb.WrapApi(s.(traits.ModeApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*modepb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*modepb.ApiRouter).AddModeApiClient(n, c.(traits.ModeApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*modepb.ApiRouter).RemoveModeApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*modepb.ApiRouter).GetModeApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return modepb.WithModeApiClientFactory(func(n string) (traits.ModeApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ModeApiClient), err
				})
			},
		},
		{Pkg: "modepb", Short: "Info", Name: "ModeInfo", Desc: &traits.ModeInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return modepb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewModeInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return modepb.WrapInfo(s.(traits.ModeInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*modepb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*modepb.InfoRouter).AddModeInfoClient(n, c.(traits.ModeInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*modepb.InfoRouter).RemoveModeInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*modepb.InfoRouter).GetModeInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return modepb.WithModeInfoClientFactory(func(n string) (traits.ModeInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ModeInfoClient), err
				})
			},
		},
		{Pkg: "motionsensorpb", Short: "Api", Name: "MotionSensorApi", Desc: &traits.MotionSensorApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return motionsensorpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMotionSensorApiClient(cc) },
			Wrap:      func(s any) Wrapped { return motionsensorpb.WrapApi(s.(traits.MotionSensorApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*motionsensorpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*motionsensorpb.ApiRouter).AddMotionSensorApiClient(n, c.(traits.MotionSensorApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*motionsensorpb.ApiRouter).RemoveMotionSensorApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*motionsensorpb.ApiRouter).GetMotionSensorApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return motionsensorpb.WithMotionSensorApiClientFactory(func(n string) (traits.MotionSensorApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.MotionSensorApiClient), err
				})
			},
		},
		{Pkg: "motionsensorpb", Short: "SensorInfo", Name: "MotionSensorSensorInfo", Desc: &traits.MotionSensorSensorInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return motionsensorpb.NewSensorInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMotionSensorSensorInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return motionsensorpb.WrapSensorInfo(s.(traits.MotionSensorSensorInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*motionsensorpb.SensorInfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*motionsensorpb.SensorInfoRouter).AddMotionSensorSensorInfoClient(n, c.(traits.MotionSensorSensorInfoClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*motionsensorpb.SensorInfoRouter).RemoveMotionSensorSensorInfoClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*motionsensorpb.SensorInfoRouter).GetMotionSensorSensorInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return motionsensorpb.WithMotionSensorSensorInfoClientFactory(func(n string) (traits.MotionSensorSensorInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.MotionSensorSensorInfoClient), err
				})
			},
		},
		{Pkg: "occupancysensorpb", Short: "Api", Name: "OccupancySensorApi", Desc: &traits.OccupancySensorApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return occupancysensorpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOccupancySensorApiClient(cc) },
			Wrap:      func(s any) Wrapped { return occupancysensorpb.WrapApi(s.(traits.OccupancySensorApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*occupancysensorpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*occupancysensorpb.ApiRouter).AddOccupancySensorApiClient(n, c.(traits.OccupancySensorApiClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*occupancysensorpb.ApiRouter).RemoveOccupancySensorApiClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*occupancysensorpb.ApiRouter).GetOccupancySensorApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return occupancysensorpb.WithOccupancySensorApiClientFactory(func(n string) (traits.OccupancySensorApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.OccupancySensorApiClient), err
				})
			},
		},
		{Pkg: "occupancysensorpb", Short: "Info", Name: "OccupancySensorInfo", Desc: &traits.OccupancySensorInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return occupancysensorpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOccupancySensorInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return occupancysensorpb.WrapInfo(s.(traits.OccupancySensorInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*occupancysensorpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*occupancysensorpb.InfoRouter).AddOccupancySensorInfoClient(n, c.(traits.OccupancySensorInfoClient)))
			},
			Remove: func(r Router, n string) any {
				return box(r.(*occupancysensorpb.InfoRouter).RemoveOccupancySensorInfoClient(n))
			},
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*occupancysensorpb.InfoRouter).GetOccupancySensorInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return occupancysensorpb.WithOccupancySensorInfoClientFactory(func(n string) (traits.OccupancySensorInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.OccupancySensorInfoClient), err
				})
			},
		},
		{Pkg: "onoffpb", Short: "Api", Name: "OnOffApi", Desc: &traits.OnOffApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return onoffpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOnOffApiClient(cc) },
			Wrap:      func(s any) Wrapped { return onoffpb.WrapApi(s.(traits.OnOffApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*onoffpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*onoffpb.ApiRouter).AddOnOffApiClient(n, c.(traits.OnOffApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*onoffpb.ApiRouter).RemoveOnOffApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*onoffpb.ApiRouter).GetOnOffApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return onoffpb.WithOnOffApiClientFactory(func(n string) (traits.OnOffApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.OnOffApiClient), err
				})
			},
		},
		{Pkg: "onoffpb", Short: "Info", Name: "OnOffInfo", Desc: &traits.OnOffInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return onoffpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOnOffInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return onoffpb.WrapInfo(s.(traits.OnOffInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*onoffpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*onoffpb.InfoRouter).AddOnOffInfoClient(n, c.(traits.OnOffInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*onoffpb.InfoRouter).RemoveOnOffInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*onoffpb.InfoRouter).GetOnOffInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return onoffpb.WithOnOffInfoClientFactory(func(n string) (traits.OnOffInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.OnOffInfoClient), err
				})
			},
		},
		{Pkg: "openclosepb", Short: "Api", Name: "OpenCloseApi", Desc: &traits.OpenCloseApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return openclosepb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOpenCloseApiClient(cc) },
			Wrap:      func(s any) Wrapped { return openclosepb.WrapApi(s.(traits.OpenCloseApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*openclosepb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*openclosepb.ApiRouter).AddOpenCloseApiClient(n, c.(traits.OpenCloseApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*openclosepb.ApiRouter).RemoveOpenCloseApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*openclosepb.ApiRouter).GetOpenCloseApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return openclosepb.WithOpenCloseApiClientFactory(func(n string) (traits.OpenCloseApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.OpenCloseApiClient), err
				})
			},
		},
		{Pkg: "openclosepb", Short: "Info", Name: "OpenCloseInfo", Desc: &traits.OpenCloseInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return openclosepb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOpenCloseInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return openclosepb.WrapInfo(s.(traits.OpenCloseInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*openclosepb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*openclosepb.InfoRouter).AddOpenCloseInfoClient(n, c.(traits.OpenCloseInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*openclosepb.InfoRouter).RemoveOpenCloseInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*openclosepb.InfoRouter).GetOpenCloseInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return openclosepb.WithOpenCloseInfoClientFactory(func(n string) (traits.OpenCloseInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.OpenCloseInfoClient), err
				})
			},
		},
		{Pkg: "parentpb", Short: "Api", Name: "ParentApi", Desc: &traits.ParentApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return parentpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewParentApiClient(cc) },
			Wrap:      func(s any) Wrapped { return parentpb.WrapApi(s.(traits.ParentApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*parentpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*parentpb.ApiRouter).AddParentApiClient(n, c.(traits.ParentApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*parentpb.ApiRouter).RemoveParentApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*parentpb.ApiRouter).GetParentApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return parentpb.WithParentApiClientFactory(func(n string) (traits.ParentApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ParentApiClient), err
				})
			},
		},
		{Pkg: "parentpb", Short: "Info", Name: "ParentInfo", Desc: &traits.ParentInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return parentpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewParentInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return parentpb.WrapInfo(s.(traits.ParentInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*parentpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*parentpb.InfoRouter).AddParentInfoClient(n, c.(traits.ParentInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*parentpb.InfoRouter).RemoveParentInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*parentpb.InfoRouter).GetParentInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return parentpb.WithParentInfoClientFactory(func(n string) (traits.ParentInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.ParentInfoClient), err
				})
			},
		},
		{Pkg: "presspb", Short: "Api", Name: "PressApi", Desc: &traits.PressApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return presspb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPressApiClient(cc) },
			Wrap:      func(s any) Wrapped { return presspb.WrapApi(s.(traits.PressApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*presspb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*presspb.ApiRouter).AddPressApiClient(n, c.(traits.PressApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*presspb.ApiRouter).RemovePressApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*presspb.ApiRouter).GetPressApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return presspb.WithPressApiClientFactory(func(n string) (traits.PressApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.PressApiClient), err
				})
			},
		},
		{Pkg: "ptzpb", Short: "Api", Name: "PtzApi", Desc: &traits.PtzApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return ptzpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPtzApiClient(cc) },
			Wrap:      func(s any) Wrapped { return ptzpb.WrapApi(s.(traits.PtzApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*ptzpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*ptzpb.ApiRouter).AddPtzApiClient(n, c.(traits.PtzApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*ptzpb.ApiRouter).RemovePtzApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*ptzpb.ApiRouter).GetPtzApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return ptzpb.WithPtzApiClientFactory(func(n string) (traits.PtzApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.PtzApiClient), err
				})
			},
		},
		{Pkg: "ptzpb", Short: "Info", Name: "PtzInfo", Desc: &traits.PtzInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return ptzpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPtzInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return ptzpb.WrapInfo(s.(traits.PtzInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*ptzpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*ptzpb.InfoRouter).AddPtzInfoClient(n, c.(traits.PtzInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*ptzpb.InfoRouter).RemovePtzInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*ptzpb.InfoRouter).GetPtzInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return ptzpb.WithPtzInfoClientFactory(func(n string) (traits.PtzInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.PtzInfoClient), err
				})
			},
		},
		{Pkg: "publicationpb", Short: "Api", Name: "PublicationApi", Desc: &traits.PublicationApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return publicationpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPublicationApiClient(cc) },
			Wrap:      func(s any) Wrapped { return publicationpb.WrapApi(s.(traits.PublicationApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*publicationpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*publicationpb.ApiRouter).AddPublicationApiClient(n, c.(traits.PublicationApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*publicationpb.ApiRouter).RemovePublicationApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*publicationpb.ApiRouter).GetPublicationApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return publicationpb.WithPublicationApiClientFactory(func(n string) (traits.PublicationApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.PublicationApiClient), err
				})
			},
		},
		{Pkg: "speakerpb", Short: "Api", Name: "SpeakerApi", Desc: &traits.SpeakerApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return speakerpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewSpeakerApiClient(cc) },
			Wrap:      func(s any) Wrapped { return speakerpb.WrapApi(s.(traits.SpeakerApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*speakerpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*speakerpb.ApiRouter).AddSpeakerApiClient(n, c.(traits.SpeakerApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*speakerpb.ApiRouter).RemoveSpeakerApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*speakerpb.ApiRouter).GetSpeakerApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return speakerpb.WithSpeakerApiClientFactory(func(n string) (traits.SpeakerApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.SpeakerApiClient), err
				})
			},
		},
		{Pkg: "speakerpb", Short: "Info", Name: "SpeakerInfo", Desc: &traits.SpeakerInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return speakerpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewSpeakerInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return speakerpb.WrapInfo(s.(traits.SpeakerInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*speakerpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*speakerpb.InfoRouter).AddSpeakerInfoClient(n, c.(traits.SpeakerInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*speakerpb.InfoRouter).RemoveSpeakerInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*speakerpb.InfoRouter).GetSpeakerInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return speakerpb.WithSpeakerInfoClientFactory(func(n string) (traits.SpeakerInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.SpeakerInfoClient), err
				})
			},
		},
		{Pkg: "temperaturepb", Short: "Api", Name: "TemperatureApi", Desc: &traits.TemperatureApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return temperaturepb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewTemperatureApiClient(cc) },
			Wrap:      func(s any) Wrapped { return temperaturepb.WrapApi(s.(traits.TemperatureApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*temperaturepb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*temperaturepb.ApiRouter).AddTemperatureApiClient(n, c.(traits.TemperatureApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*temperaturepb.ApiRouter).RemoveTemperatureApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*temperaturepb.ApiRouter).GetTemperatureApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return temperaturepb.WithTemperatureApiClientFactory(func(n string) (traits.TemperatureApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.TemperatureApiClient), err
				})
			},
		},
		{Pkg: "vendingpb", Short: "Api", Name: "VendingApi", Desc: &traits.VendingApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return vendingpb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewVendingApiClient(cc) },
			Wrap:      func(s any) Wrapped { return vendingpb.WrapApi(s.(traits.VendingApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*vendingpb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*vendingpb.ApiRouter).AddVendingApiClient(n, c.(traits.VendingApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*vendingpb.ApiRouter).RemoveVendingApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*vendingpb.ApiRouter).GetVendingApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return vendingpb.WithVendingApiClientFactory(func(n string) (traits.VendingApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.VendingApiClient), err
				})
			},
		},
		{Pkg: "vendingpb", Short: "Info", Name: "VendingInfo", Desc: &traits.VendingInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return vendingpb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewVendingInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return vendingpb.WrapInfo(s.(traits.VendingInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*vendingpb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*vendingpb.InfoRouter).AddVendingInfoClient(n, c.(traits.VendingInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*vendingpb.InfoRouter).RemoveVendingInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*vendingpb.InfoRouter).GetVendingInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return vendingpb.WithVendingInfoClientFactory(func(n string) (traits.VendingInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.VendingInfoClient), err
				})
			},
		},
		{Pkg: "wastepb", Short: "Api", Name: "WasteApi", Desc: &traits.WasteApi_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return wastepb.NewApiRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewWasteApiClient(cc) },
			Wrap:      func(s any) Wrapped { return wastepb.WrapApi(s.(traits.WasteApiServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*wastepb.ApiWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*wastepb.ApiRouter).AddWasteApiClient(n, c.(traits.WasteApiClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*wastepb.ApiRouter).RemoveWasteApiClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*wastepb.ApiRouter).GetWasteApiClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return wastepb.WithWasteApiClientFactory(func(n string) (traits.WasteApiClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.WasteApiClient), err
				})
			},
		},
		{Pkg: "wastepb", Short: "Info", Name: "WasteInfo", Desc: &traits.WasteInfo_ServiceDesc,
			NewRouter: func(o ...router.Option) Router { return wastepb.NewInfoRouter(o...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewWasteInfoClient(cc) },
			Wrap:      func(s any) Wrapped { return wastepb.WrapInfo(s.(traits.WasteInfoServer)) },
			Unwrap:    func(w Wrapped) any { return w.(*wastepb.InfoWrapper).UnwrapServer() },
			Add: func(r Router, n string, c any) any {
				return box(r.(*wastepb.InfoRouter).AddWasteInfoClient(n, c.(traits.WasteInfoClient)))
			},
			Remove: func(r Router, n string) any { return box(r.(*wastepb.InfoRouter).RemoveWasteInfoClient(n)) },
			Get: func(r Router, n string) (any, error) {
				c, err := r.(*wastepb.InfoRouter).GetWasteInfoClient(n)
				return box(c), err
			},
			Factory: func(f router.Factory) router.Option {
				return wastepb.WithWasteInfoClientFactory(func(n string) (traits.WasteInfoClient, error) {
					c, err := f(n)
					if c == nil {
						return nil, err
					}
					return c.(traits.WasteInfoClient), err
				})
			},
		},
	}
}
