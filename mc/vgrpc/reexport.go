// Code generated by reexport.py from google.golang.org/grpc. DO NOT EDIT.

// Package vgrpc replaces google.golang.org/grpc in instrumented code.
package vgrpc

import "google.golang.org/grpc"

type BackoffConfig = grpc.BackoffConfig

var CallContentSubtype = grpc.CallContentSubtype
var CallCustomCodec = grpc.CallCustomCodec

type CallOption = grpc.CallOption

var ChainStreamInterceptor = grpc.ChainStreamInterceptor
var ChainUnaryInterceptor = grpc.ChainUnaryInterceptor

type ClientConnInterface = grpc.ClientConnInterface
type ClientStream = grpc.ClientStream

var ClientSupportedCompressors = grpc.ClientSupportedCompressors
var Code = grpc.Code

type Codec = grpc.Codec
type Compressor = grpc.Compressor
type CompressorCallOption = grpc.CompressorCallOption
type ConnectParams = grpc.ConnectParams

var ConnectionTimeout = grpc.ConnectionTimeout

type ContentSubtypeCallOption = grpc.ContentSubtypeCallOption

var Creds = grpc.Creds
var CustomCodec = grpc.CustomCodec

type CustomCodecCallOption = grpc.CustomCodecCallOption
type Decompressor = grpc.Decompressor

var DefaultBackoffConfig = grpc.DefaultBackoffConfig

type DialOption = grpc.DialOption
type EmptyCallOption = grpc.EmptyCallOption
type EmptyDialOption = grpc.EmptyDialOption
type EmptyServerOption = grpc.EmptyServerOption

var EnableTracing = grpc.EnableTracing
var ErrClientConnClosing = grpc.ErrClientConnClosing
var ErrClientConnTimeout = grpc.ErrClientConnTimeout
var ErrServerStopped = grpc.ErrServerStopped
var ErrorDesc = grpc.ErrorDesc
var Errorf = grpc.Errorf
var FailFast = grpc.FailFast

type FailFastCallOption = grpc.FailFastCallOption

var FailOnNonTempDialError = grpc.FailOnNonTempDialError
var ForceCodec = grpc.ForceCodec

type ForceCodecCallOption = grpc.ForceCodecCallOption

var ForceCodecV2 = grpc.ForceCodecV2

type ForceCodecV2CallOption = grpc.ForceCodecV2CallOption

var ForceServerCodec = grpc.ForceServerCodec
var ForceServerCodecV2 = grpc.ForceServerCodecV2
var Header = grpc.Header

type HeaderCallOption = grpc.HeaderCallOption

var HeaderTableSize = grpc.HeaderTableSize
var InTapHandle = grpc.InTapHandle
var InitialConnWindowSize = grpc.InitialConnWindowSize
var InitialWindowSize = grpc.InitialWindowSize
var Invoke = grpc.Invoke
var KeepaliveEnforcementPolicy = grpc.KeepaliveEnforcementPolicy
var KeepaliveParams = grpc.KeepaliveParams
var MaxCallRecvMsgSize = grpc.MaxCallRecvMsgSize
var MaxCallSendMsgSize = grpc.MaxCallSendMsgSize
var MaxConcurrentStreams = grpc.MaxConcurrentStreams
var MaxHeaderListSize = grpc.MaxHeaderListSize

type MaxHeaderListSizeDialOption = grpc.MaxHeaderListSizeDialOption
type MaxHeaderListSizeServerOption = grpc.MaxHeaderListSizeServerOption

var MaxMsgSize = grpc.MaxMsgSize
var MaxRecvMsgSize = grpc.MaxRecvMsgSize

type MaxRecvMsgSizeCallOption = grpc.MaxRecvMsgSizeCallOption

var MaxRetryRPCBufferSize = grpc.MaxRetryRPCBufferSize

type MaxRetryRPCBufferSizeCallOption = grpc.MaxRetryRPCBufferSizeCallOption

var MaxSendMsgSize = grpc.MaxSendMsgSize

type MaxSendMsgSizeCallOption = grpc.MaxSendMsgSizeCallOption

var Method = grpc.Method

type MethodConfig = grpc.MethodConfig
type MethodDesc = grpc.MethodDesc

var MethodFromServerStream = grpc.MethodFromServerStream

type MethodHandler = grpc.MethodHandler
type MethodInfo = grpc.MethodInfo

var NewClientStream = grpc.NewClientStream
var NewContextWithServerTransportStream = grpc.NewContextWithServerTransportStream
var NewGZIPCompressor = grpc.NewGZIPCompressor
var NewGZIPCompressorWithLevel = grpc.NewGZIPCompressorWithLevel
var NewGZIPDecompressor = grpc.NewGZIPDecompressor
var NumStreamWorkers = grpc.NumStreamWorkers
var OnFinish = grpc.OnFinish

type OnFinishCallOption = grpc.OnFinishCallOption

var Peer = grpc.Peer

type PeerCallOption = grpc.PeerCallOption

var PerRPCCredentials = grpc.PerRPCCredentials

type PerRPCCredsCallOption = grpc.PerRPCCredsCallOption

var PickFirstBalancerName = grpc.PickFirstBalancerName

type PreparedMsg = grpc.PreparedMsg

var RPCCompressor = grpc.RPCCompressor
var RPCDecompressor = grpc.RPCDecompressor
var ReadBufferSize = grpc.ReadBufferSize
var SendHeader = grpc.SendHeader

type ServerOption = grpc.ServerOption
type ServerStream = grpc.ServerStream
type ServerTransportStream = grpc.ServerTransportStream

var ServerTransportStreamFromContext = grpc.ServerTransportStreamFromContext

type ServiceConfig = grpc.ServiceConfig
type ServiceDesc = grpc.ServiceDesc
type ServiceInfo = grpc.ServiceInfo
type ServiceRegistrar = grpc.ServiceRegistrar

var SetHeader = grpc.SetHeader
var SetSendCompressor = grpc.SetSendCompressor
var SetTrailer = grpc.SetTrailer
var SharedWriteBuffer = grpc.SharedWriteBuffer
var StaticMethod = grpc.StaticMethod

type StaticMethodCallOption = grpc.StaticMethodCallOption

var StatsHandler = grpc.StatsHandler

type Stream = grpc.Stream
type StreamClientInterceptor = grpc.StreamClientInterceptor
type StreamDesc = grpc.StreamDesc
type StreamHandler = grpc.StreamHandler

var StreamInterceptor = grpc.StreamInterceptor

type StreamServerInfo = grpc.StreamServerInfo
type StreamServerInterceptor = grpc.StreamServerInterceptor
type Streamer = grpc.Streamer

const SupportPackageIsVersion3 = grpc.SupportPackageIsVersion3
const SupportPackageIsVersion4 = grpc.SupportPackageIsVersion4
const SupportPackageIsVersion5 = grpc.SupportPackageIsVersion5
const SupportPackageIsVersion6 = grpc.SupportPackageIsVersion6
const SupportPackageIsVersion7 = grpc.SupportPackageIsVersion7
const SupportPackageIsVersion8 = grpc.SupportPackageIsVersion8
const SupportPackageIsVersion9 = grpc.SupportPackageIsVersion9

var Trailer = grpc.Trailer

type TrailerCallOption = grpc.TrailerCallOption
type UnaryClientInterceptor = grpc.UnaryClientInterceptor
type UnaryHandler = grpc.UnaryHandler

var UnaryInterceptor = grpc.UnaryInterceptor

type UnaryInvoker = grpc.UnaryInvoker
type UnaryServerInfo = grpc.UnaryServerInfo
type UnaryServerInterceptor = grpc.UnaryServerInterceptor

var UnknownServiceHandler = grpc.UnknownServiceHandler
var UseCompressor = grpc.UseCompressor

const Version = grpc.Version

var WaitForHandlers = grpc.WaitForHandlers
var WaitForReady = grpc.WaitForReady
var WithAuthority = grpc.WithAuthority
var WithBackoffConfig = grpc.WithBackoffConfig
var WithBackoffMaxDelay = grpc.WithBackoffMaxDelay
var WithBlock = grpc.WithBlock
var WithChainStreamInterceptor = grpc.WithChainStreamInterceptor
var WithChainUnaryInterceptor = grpc.WithChainUnaryInterceptor
var WithChannelzParentID = grpc.WithChannelzParentID
var WithCodec = grpc.WithCodec
var WithCompressor = grpc.WithCompressor
var WithConnectParams = grpc.WithConnectParams
var WithContextDialer = grpc.WithContextDialer
var WithCredentialsBundle = grpc.WithCredentialsBundle
var WithDecompressor = grpc.WithDecompressor
var WithDefaultCallOptions = grpc.WithDefaultCallOptions
var WithDefaultServiceConfig = grpc.WithDefaultServiceConfig
var WithDialer = grpc.WithDialer
var WithDisableHealthCheck = grpc.WithDisableHealthCheck
var WithDisableRetry = grpc.WithDisableRetry
var WithDisableServiceConfig = grpc.WithDisableServiceConfig
var WithIdleTimeout = grpc.WithIdleTimeout
var WithInitialConnWindowSize = grpc.WithInitialConnWindowSize
var WithInitialWindowSize = grpc.WithInitialWindowSize
var WithInsecure = grpc.WithInsecure
var WithKeepaliveParams = grpc.WithKeepaliveParams
var WithMaxCallAttempts = grpc.WithMaxCallAttempts
var WithMaxHeaderListSize = grpc.WithMaxHeaderListSize
var WithMaxMsgSize = grpc.WithMaxMsgSize
var WithNoProxy = grpc.WithNoProxy
var WithPerRPCCredentials = grpc.WithPerRPCCredentials
var WithReadBufferSize = grpc.WithReadBufferSize
var WithResolvers = grpc.WithResolvers
var WithReturnConnectionError = grpc.WithReturnConnectionError
var WithSharedWriteBuffer = grpc.WithSharedWriteBuffer
var WithStatsHandler = grpc.WithStatsHandler
var WithStreamInterceptor = grpc.WithStreamInterceptor
var WithTimeout = grpc.WithTimeout
var WithTransportCredentials = grpc.WithTransportCredentials
var WithUnaryInterceptor = grpc.WithUnaryInterceptor
var WithUserAgent = grpc.WithUserAgent
var WithWriteBufferSize = grpc.WithWriteBufferSize
var WriteBufferSize = grpc.WriteBufferSize
